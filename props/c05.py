"""C05: the walker ensemble stays consistent at every point of a simulation"""
import copy

import numpy as np

from vlib import gen, ref, sim, systems

RULE = ("one signature per (integrator, potential, dimension, boundary condition, birth-death "
        "variant, recalculation, stride, number of walkers)")
REQUIRED = {
    "walker states checked": 20000,
    "ensembles probed for shared state": 1000,
    "birth-death events": 1000,
    "chained copies": 100,
    "walker states of large ensembles": 20000,
}
ASSUMPTIONS = []


def cases(tier, seed):
    mul = 1 if tier == "quick" else 12
    return ([dict(mode="main", seed=seed * 100153 + i) for i in range(40 * mul)]
            + [dict(mode="big", n=n, seed=seed * 100151 + j) for j, n in enumerate([300, 1100, 3000, 5000][:2 + mul])]
            + [dict(mode="moves", seed=seed * 100169 + i) for i in range(16 * mul)])


def arrays(p):
    return {k: v for k, v in vars(p).items() if isinstance(v, np.ndarray) and v.size}


def probe_sharing(mon, particles, rng, where):
    """No two walkers share objects or memory; perturbing one leaves all others as they are"""
    ps = list(particles)
    mon.count("ensembles probed for shared state")
    mon.check(len({id(p) for p in ps}) == len(ps), "walkers are distinct objects", where=where)
    arrs = [arrays(p) for p in ps]
    for i in range(len(ps)):
        for j in range(i):
            for a in arrs[i].values():
                for b in arrs[j].values():
                    if np.shares_memory(a, b):
                        mon.check(False, "walkers do not share memory", pair=(i, j), where=where)
                        return False
    mon.check(True, "walkers do not share memory")
    k = int(rng.integers(len(ps)))
    before = [systems.state(p) for p in ps]
    saved = {n: np.array(a) for n, a in arrs[k].items()}
    scal = (ps[k].energy, ps[k].mass)
    for a in arrs[k].values():
        a += 1.2345
    ps[k].energy = -77.0
    ps[k].mass = 1e6
    now = [systems.state(p) for p in particles]
    for i, (a, b) in enumerate(zip(now, before)):
        if i != k:
            mon.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)),
                      "changing one walker changes no other", changed=k, other=i, where=where)
    for n, a in arrs[k].items():
        a[...] = saved[n]
    ps[k].energy, ps[k].mass = scal
    return True


def run_main(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(3):
        n_steps = int(rng.integers(10, 40))
        cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd=rng.random() < 0.9)
        cfg["ld"]["timestep"] = float(rng.choice([0.001, 0.005, 0.01]))
        if "birth-death" in cfg:
            cfg["birth-death"]["stride"] = int(rng.choice([1, 1, 2, 3, 5]))
            cfg["birth-death"]["exponential-factor"] = float(rng.choice([10.0, 1e3, 1e5]))
        if rng.random() < 0.5:
            cfg["trajectories"] = {"stride": int(rng.integers(1, 4))}
        n = cfg["particles"]["number"]
        mass = cfg["particles"]["mass"]
        prng = np.random.default_rng(case["seed"] + rep)
        stat = {}

        def check_state(parts, step, where, pot):
            if "ref" not in stat:
                stat["ref"] = ref.Offset(gen.ref_potential(cfg), pot)
            w = dict(step=step, where=where)
            mon.check(len(parts) == n, "number of walkers is constant", n=len(parts), want=n, **w)
            for i, p in enumerate(parts):
                mon.count("walker states checked")
                pos = np.asarray(p.pos)
                ok = pos.shape == (n_dim,) and np.shape(p.mom) == (n_dim,) and np.size(p.forces) == n_dim
                mon.check(ok, "walkers keep the dimension of the potential", walker=i,
                          shapes=(pos.shape, np.shape(p.mom), np.shape(p.forces)), **w)
                mon.check(float(p.mass) == mass, "mass stays the configured one", walker=i, mass=p.mass, **w)
                if ok and np.all(np.abs(pos) < 10):
                    mon.check(stat["ref"].matches(pos, p.energy, p.forces),
                              "stored energy and forces belong to the current position", walker=i,
                              pos=pos, energy=p.energy, want=stat["ref"].energy(pos),
                              forces=p.forces, want_forces=stat["ref"].force(pos),
                              input=sim.input_text(cfg), **w)

        def probe(stage, action, step):
            pot = action.pot if stage == "ld" else stat["pot"]
            stat["pot"] = pot
            check_state(action.particles, step, "after " + stage, pot)
            if stage == "bd" or step % 5 == 0:
                probe_sharing(mon, action.particles, prng, f"after {stage} step {step}")

        res = sim.must_run(mon, cfg, probe=probe)
        if res is None:
            return
        rec = res.rec
        mon.count("birth-death events", sum(len(e) for _, e in rec.bd_events))
        bd = cfg.get("birth-death", {})
        mon.sig(cfg["ld"]["type"], cfg["potential"]["type"], n_dim,
                cfg["potential"].get("boundary-condition"), bd.get("approximation-variant"),
                bd.get("recalculate-probabilities"), bd.get("stride"), n)
        # nothing happens to the walkers between the last action of a step and the next step
        last = rec.after_bd if "birth-death" in cfg else rec.after_ld
        if len(last) == n_steps and len(rec.end_of_step) == n_steps + 1:
            for k in range(n_steps):
                mon.check(last[k].same(rec.end_of_step[k + 1]),
                          "only dynamics and birth-death change walkers", step=k + 1)
        first = rec.end_of_step[0]
        mon.check(first.n == n and np.all(first.mass == mass), "initial ensemble is consistent")
        if mon.n_violations:
            return
    mon.sample(dict(input=sim.input_text(cfg), events=rec.bd_events[:3]))


def run_moves(case, mon):
    """Chains of copies through the birth-death interface, followed by dynamics"""
    rng = np.random.default_rng(case["seed"])
    from bdld.actions.birth_death import BirthDeath

    for rep in range(4):
        system = systems.make(rng, bc=str(rng.choice(["none", "reflective", "periodic"])))
        over = rng.random() < 0.4
        ld = (systems.overdamped(system, 0.002, 3) if over
              else systems.bpld(system, 0.002, 5.0, 1.0, 3))
        n = int(rng.integers(2, 8))
        start = np.array(system.start(rng, 0.5), dtype=float)
        same = bool(rng.random() < 0.4)  # all walkers are created from one array
        for _ in range(n):
            ld.add_particle(start if same else system.start(rng, 0.5), float(rng.choice([0.5, 1.0, 2.0])))
        if same:
            keep = start.copy()
            mon.count("ensembles created from one array")
            probe_sharing(mon, ld.particles, rng, "after creation")
            ld.run(0)
            mon.check(np.array_equal(start, keep), "walkers do not share state with the given position",
                      got=start, want=keep)
        with systems.quiet():
            bd = BirthDeath(ld.particles, 0.002, 1, [0.3] * system.n_dim, 1.0, 100.0,
                            bool(rng.random() < 0.5), seed=int(rng.integers(10**6)))
        off = ref.Offset(system.ref, system.pot)
        for step in range(1, 25):
            ld.run(step)
            chain = []
            i = int(rng.integers(n))
            for _ in range(int(rng.integers(0, 5))):
                j = int((i + rng.integers(1, n)) % n)
                chain.append((i, j))
                i = j if rng.random() < 0.7 else int(rng.integers(n))
            chain = [(a, b) for a, b in chain if a != b]
            model = [systems.state(p) for p in ld.particles]
            for a, b in chain:
                model[b] = model[a]
            if hasattr(bd, "perform_moves"):
                bd.perform_moves(chain)
            else:
                chain, model = [], [systems.state(p) for p in ld.particles]
            mon.count("chained copies", len(chain))
            now = [systems.state(p) for p in ld.particles]
            mon.check(len(now) == n and all(
                all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)) for a, b in zip(now, model)),
                "replaced walkers are exact copies and nothing else changes", chain=chain,
                got=now, want=model)
            probe_sharing(mon, ld.particles, rng, "after moves")
            ev = bd.do_birth_death()
            mon.count("birth-death events", len(ev))
            probe_sharing(mon, ld.particles, rng, "after birth-death")
            # dynamics of one walker alone: others keep their state
            for p in ld.particles:
                if np.all(np.abs(p.pos) < 10):
                    mon.count("walker states checked")
                    mon.check(off.matches(p.pos, p.energy, p.forces),
                              "stored energy and forces belong to the current position", pos=p.pos,
                              energy=p.energy, forces=p.forces)
            if mon.n_violations:
                return
        mon.sig("moves", system.n_dim, system.bc, over, n)


def run_big(case, mon):
    """Many walkers: everything is up to date and nothing is shared, after every action"""
    rng = np.random.default_rng(case["seed"])
    n, n_steps = case["n"], 5
    for rep in range(2):
        cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd=True, number=n, n_dim=int(rng.integers(1, 3)))
        cfg["birth-death"].update({"stride": int(rng.integers(1, 4)), "exponential-factor": 50.0,
                                   "recalculate-probabilities": False, "approximation-variant": "original"})
        mass = cfg["particles"]["mass"]
        stat = {}

        def probe(stage, action, step):
            stat["pot"] = pot = action.pot if stage == "ld" else stat["pot"]
            off = stat.setdefault("ref", ref.Offset(gen.ref_potential(cfg), pot))
            ps = list(action.particles)
            w = dict(step=step, stage=stage, n=n)
            mon.count("walker states checked", len(ps))
            mon.count("walker states of large ensembles", len(ps))
            mon.check(len(ps) == n and all(float(p.mass) == mass for p in ps), "number and mass of walkers is constant", **w)
            mon.check(len({id(p) for p in ps}) == n, "walkers are distinct objects", **w)
            for name in ("pos", "mom", "forces"):
                a = [getattr(p, name) for p in ps]
                mon.check(all(np.size(x) == n_dim for x in a), "walkers keep the dimension of the potential", **w)
                at = {np.asarray(x).__array_interface__["data"][0] for x in a}
                mon.check(len(at) == n, "walkers do not share memory", array=name, **w)
            for i, p in enumerate(ps):
                if np.all(np.abs(p.pos) < 10) and not off.matches(p.pos, p.energy, p.forces):
                    mon.check(False, "stored energy and forces belong to the current position", walker=i, pos=p.pos,
                              energy=p.energy, forces=p.forces, **w)
                    return
            mon.check(True, "stored energy and forces belong to the current position")
            if stage == "ld":
                pos = np.array([p.pos for p in ps])
                if "last" in stat:
                    mon.check(np.all(np.any(pos != stat["last"], axis=1)), "every walker moves in every step",
                              still=np.argwhere(np.all(pos == stat["last"], axis=1))[:3], **w)
            stat["last"] = np.array([p.pos for p in ps])

        cfg["potential"].pop("boundary-condition", None)
        if cfg["potential"]["type"] == "mueller-brown":
            cfg["potential"]["boundary-condition"] = "periodic"
        res = sim.must_run(mon, cfg, probe=probe)
        if res is None or mon.n_violations:
            return
        mon.count("birth-death events", sum(len(e) for _, e in res.rec.bd_events))
        mon.sig("big", n, n_dim, cfg["ld"]["type"])


def run_case(case, mon):
    dict(big=run_big, main=run_main, moves=run_moves)[case["mode"]](case, mon)
