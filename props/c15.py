"""C15: seeded runs are reproducible and output actions never alter the dynamics"""
import copy
import random

import numpy as np

from vlib import gen, outputs, sim

RULE = "one signature per (mode, set of sections, dimension, integrator, seeds equal to zero)"
REQUIRED = {
    "pairs of runs with statistics on screen": 5,
    "pairs of identical runs": 80,
    "output files compared": 400,
    "runs in processes of their own": 24,
    "pairs of runs with different outputs": 120,
    "walker states compared": 20000,
    "seed changes": 60,
    "seed changes of birth-death with enough events": 3,
    "runs with seed 0": 20,
    "pairs with birth-death events": 60,
    "pairs of large ensembles": 4,
    "seeds compared pairwise": 100,
    "seeded objects": 30,
}
ASSUMPTIONS = ["plots are not compared"]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 16
    return ([dict(mode="rerun", seed=seed * 100511 + i) for i in range(20 * mul)]
            + [dict(mode="process", seed=seed * 100517 + i) for i in range(8 * mul)]
            + [dict(mode="outputs", seed=seed * 100519 + i) for i in range(20 * mul)]
            + [dict(mode="crowd", seed=seed * 100537 + i) for i in range(4 * mul)]
            + [dict(mode="distinct", seed=seed * 100547 + i) for i in range(4 * mul)]
            + [dict(mode="objects", seed=seed * 100549 + i) for i in range(2 * mul)]
            + [dict(mode="seeds", seed=seed * 100523 + i) for i in range(16 * mul)])


def config(rng, n_steps=None, **kw):
    n_steps = n_steps or int(rng.integers(5, 60))
    with sim.fresh_dir():
        cfg, n_dim, ranges = gen.base_config(rng, n_steps, **kw)
    if "birth-death" in cfg:
        cfg["birth-death"]["exponential-factor"] = float(rng.choice([100.0, 1e4]))
        cfg["birth-death"]["stride"] = int(rng.choice([1, 2, 5]))
    for sec in ("ld", "particles", "birth-death"):
        if sec in cfg and rng.random() < 0.3:
            cfg[sec]["seed"] = int([0, 0, 1, 2**31, 2**32 + 5, 2**64 + 11][int(rng.integers(6))])
    return cfg, n_dim, ranges, n_steps


def run(mon, cfg, n_dim, keep=True):
    """Run in a fresh directory; returns (result, files)"""
    with sim.fresh_dir():
        if n_dim > 1 and "coeffs-file" in cfg["potential"]:
            gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
        res = sim.must_run(mon, cfg)
        files = outputs.read_tree() if keep else {}
    files.pop("input", None)
    files.pop("pot.coeffs", None)
    return res, files


def zero_seeds(mon, cfg):
    if any(cfg.get(s, {}).get("seed") == 0 for s in ("ld", "particles", "birth-death")):
        mon.count("runs with seed 0")


def compare_files(mon, a, b, what, **w):
    mon.count("output files compared", len(a))
    if not mon.check(sorted(a) == sorted(b), what + ": same files", only_first=sorted(set(a) - set(b))[:5],
                     only_second=sorted(set(b) - set(a))[:5], **w):
        return False
    bad = [f for f in a if a[f] != b[f]]
    first = None
    if bad:
        la, lb = a[bad[0]].splitlines(), b[bad[0]].splitlines()
        k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        first = dict(file=bad[0], line=k, first=str(la[k:k + 1]), second=str(lb[k:k + 1]))
    return mon.check(not bad, what, files=bad[:5], difference=first, **w)


def states_equal(mon, ra, rb, what, **w):
    a, b = ra.rec.end_of_step, rb.rec.end_of_step
    mon.count("walker states compared", sum(s.n for s in a))
    if not mon.check(len(a) == len(b), what + ": same number of steps", got=(len(a), len(b)), **w):
        return False
    bad = next((k for k in range(len(a)) if not a[k].same(b[k])), None)
    return mon.check(bad is None, what, first_step=bad, **w)


def summary(cfg):
    return {k: dict(v) for k, v in cfg.items()}


def run_rerun(rng, mon):
    for rep in range(5):
        cfg, n_dim, ranges, n_steps = config(rng)
        outputs.full_outputs(rng, cfg, n_dim, ranges, n_steps)
        zero_seeds(mon, cfg)
        r1, f1 = run(mon, cfg, n_dim)
        # something else in between must not matter, nor global random state or section order
        np.random.seed(int(rng.integers(10**6)))
        random.seed(int(rng.integers(10**6)))
        np.random.normal(size=int(rng.integers(1, 9)))
        order = list(cfg)
        rng.shuffle(order)
        r2, f2 = run(mon, {k: cfg[k] for k in order}, n_dim)
        if r1 is None or r2 is None:
            return
        mon.count("pairs of identical runs")
        if any(ev for _, ev in r1.rec.bd_events):
            mon.count("pairs with birth-death events")
        mon.sig("rerun", sorted(cfg), n_dim, cfg["ld"]["type"], cfg["ld"]["seed"] == 0)
        compare_files(mon, f1, f2, "repeated runs write byte-identical files", input=summary(cfg))
        states_equal(mon, r1, r2, "repeated runs give identical states", input=summary(cfg))
        if mon.n_violations:
            return
    mon.sample(dict(input=summary(cfg), files=sorted(f1)))


def run_process(rng, mon):
    """Separate processes with different environments"""
    cfg, n_dim, ranges, n_steps = config(rng, bd=True)
    outputs.full_outputs(rng, cfg, n_dim, ranges, n_steps, prob=0.95)
    if rng.random() < 0.5:
        for sec in ("ld", "particles", "birth-death"):
            cfg[sec]["seed"] = 0
    zero_seeds(mon, cfg)
    if rng.random() < 0.6:  # drawing among several positions
        p = cfg["particles"]
        cfg["particles"] = {k: p[k] for k in ("number", "mass", "seed")}
        cfg["particles"].update({"initial-distribution": "random-pos"})
        for i in range(int(rng.integers(3, 7))):
            cfg["particles"][f"pos{i+1}"] = [float(np.round(rng.uniform(lo, hi), 2)) for lo, hi in ranges]
    r0, f0 = run(mon, cfg, n_dim)
    if r0 is None:
        return
    envs = [dict(PYTHONHASHSEED="1", TZ="UTC", LC_ALL="C"),
            dict(PYTHONHASHSEED="4711", TZ="Asia/Tokyo", LC_ALL="C.UTF-8", COLUMNS="40", HOME="/nonexistent",
                 OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2"),
            dict(PYTHONHASHSEED="random", PYTHONOPTIMIZE="1")]
    for env in envs:
        with sim.fresh_dir():
            if n_dim > 1 and "coeffs-file" in cfg["potential"]:
                gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
            sim.write_input(cfg)
            p = sim.run_cli(env=env)
            files = outputs.read_tree()
        files.pop("input", None)
        files.pop("pot.coeffs", None)
        mon.count("runs in processes of their own")
        if not mon.check(p.returncode == 0, "legal input runs to completion", stderr=p.stderr[-800:]):
            return
        mon.count("pairs of identical runs")
        mon.sig("process", sorted(cfg), n_dim, cfg["ld"]["type"], cfg["ld"]["seed"] == 0, env["PYTHONHASHSEED"])
        compare_files(mon, f0, files, "runs in every process and environment are byte-identical", env=env,
                      input=summary(cfg))
        if mon.n_violations:
            return


def run_outputs(rng, mon):
    """Output sections never change the motion of any walker"""
    for rep in range(3):
        cfg, n_dim, ranges, n_steps = config(rng)
        zero_seeds(mon, cfg)
        base = copy.deepcopy(cfg)
        r0, _ = run(mon, base, n_dim, keep=False)
        if r0 is None:
            return
        for k in range(3):
            other = copy.deepcopy(cfg)
            outputs.full_outputs(rng, other, n_dim, ranges, n_steps, prob=float(rng.choice([0.5, 0.9])))
            if "birth-death" in other and rng.random() < 0.35:  # statistics on screen
                other["birth-death"].pop("stats-filename", None)
                other["birth-death"]["stats-stride"] = int(rng.integers(1, 4))
                mon.count("pairs of runs with statistics on screen")
            r1, _ = run(mon, other, n_dim, keep=False)
            if r1 is None:
                return
            mon.count("pairs of runs with different outputs")
            if any(ev for _, ev in r0.rec.bd_events):
                mon.count("pairs with birth-death events")
            mon.sig("outputs", sorted(other), n_dim, other["ld"]["type"])
            states_equal(mon, r0, r1, "output sections do not change the motion", sections=sorted(other),
                         input=summary(other))
            mon.check([e for _, e in r0.rec.bd_events] == [e for _, e in r1.rec.bd_events],
                      "output sections do not change birth-death events", input=summary(other))
            if mon.n_violations:
                return


def flat(rng, bd, dt=0.01, factor=None, ld_type=None):
    """Flat potential without boundary condition: noise is visible in the displacements"""
    n_steps = 30
    cfg = {"ld": gen.ld_section(rng, n_steps, ld_type, dt=dt),
           "potential": {"type": "polynomial", "n_dim": 1, "coeffs": [0.0, 0.0], "min": -2.0, "max": 2.0},
           "particles": {"number": int(rng.integers(4, 10)), "initial-distribution": "random-global",
                         "seed": int(rng.integers(0, 1000))}}
    if bd:
        cfg["birth-death"] = {"stride": 3, "kernel-bandwidth": 0.4, "exponential-factor": factor or 60.0,
                              "seed": int(rng.integers(0, 1000))}
    return cfg


def differ(a, b):
    return not np.array_equal(a, b)


def run_seeds(rng, mon):
    for rep in range(4):
        which = ["ld", "particles", "birth-death", "ld-frozen"][rep]
        frozen = which == "ld-frozen"
        # frozen: walkers practically do not move, so birth-death events depend on its numbers only
        cfg = flat(rng, bd=which != "particles" or rng.random() < 0.0, dt=1e-24 if frozen else 0.01,
                   factor=5e24 if frozen else None,
                   ld_type="overdamped" if frozen else None)
        if frozen:
            cfg["potential"]["coeffs"] = [0.0, 0.3, 1.0]
        if rng.random() < 0.4:  # equal seeds in all sections
            for s in cfg:
                if "seed" in cfg[s]:
                    cfg[s]["seed"] = cfg["ld"]["seed"]
        other = copy.deepcopy(cfg)
        sec = "ld" if frozen else which
        new = int(rng.integers(1000, 2000))
        if rng.random() < 0.3 and cfg[sec]["seed"] != 0:
            new = 0
        other[sec]["seed"] = new
        r0, _ = run(mon, cfg, 1, keep=False)
        r1, _ = run(mon, other, 1, keep=False)
        if r0 is None or r1 is None:
            return
        a, b = r0.rec, r1.rec
        mon.count("seed changes")
        zero_seeds(mon, cfg)
        mon.sig("seeds", which, cfg["ld"]["type"], new == 0)
        w = dict(changed=which, seeds={s: cfg[s]["seed"] for s in cfg if "seed" in cfg[s]}, new=new,
                 type=cfg["ld"]["type"])
        init_same = a.end_of_step[0].same(b.end_of_step[0])
        noise_a = np.array([x.pos - y.pos for x, y in zip(a.after_ld, a.end_of_step)])
        noise_b = np.array([x.pos - y.pos for x, y in zip(b.after_ld, b.end_of_step)])
        mon.count("walker states compared", 2 * sum(s.n for s in a.end_of_step))
        if which == "particles":
            mon.check(differ(a.end_of_step[0].pos, b.end_of_step[0].pos),
                      "another seed of the particles changes their positions", **w)
            mon.close(noise_b, noise_a, "the seed of the particles does not change the noise of the dynamics",
                      rtol=1e-9, atol=1e-12, **w)
        else:
            mon.check(init_same, "initial positions depend on their own seed only", **w)
        if which in ("ld", "ld-frozen"):
            mon.check(differ(noise_a, noise_b), "another seed of the dynamics changes its noise", **w)
        if frozen:
            mon.count("birth-death steps compared", len(a.bd_events))
            mon.count("events compared", sum(len(e) for _, e in a.bd_events))
            mon.check(a.bd_events == b.bd_events, "the seed of the dynamics does not change birth-death numbers",
                      first=a.bd_events[:3], second=b.bd_events[:3], **w)
        if which == "birth-death":
            if cfg["ld"]["type"] == "overdamped":
                mon.close(noise_b, noise_a, "the seed of birth-death does not change the noise of the dynamics",
                          rtol=1e-9, atol=1e-12, **w)
            else:  # up to the first event everything is identical
                first = next((s for s, e in a.bd_events if e), 10**9)
                first = min(first, next((s for s, e in b.bd_events if e), 10**9))
                same = all(a.after_ld[k].same(b.after_ld[k]) for k in range(min(first, len(a.after_ld))))
                mon.check(same, "the seed of birth-death does not change the motion before its first event", **w)
            # only if a coincidence is practically impossible (the partner alone is random)
            bits = sum(len(e) for _, e in a.bd_events) * np.log2(a.end_of_step[0].n - 1)
            if bits > 36:
                mon.count("seed changes of birth-death with enough events")
                mon.check(a.bd_events != b.bd_events, "another seed of birth-death changes its events", **w)
        if mon.n_violations:
            return


def run_crowd(rng, mon):
    """Large ensembles are as reproducible as small ones"""
    cfg = flat(rng, bd=True, factor=20.0)
    cfg["ld"]["n_steps"] = 12
    cfg["particles"]["number"] = int(rng.integers(220, 700))
    if rng.random() < 0.5:
        cfg["birth-death"]["recalculate-probabilities"] = True
        cfg["birth-death"]["exponential-factor"] = 3.0
    r0, _ = run(mon, cfg, 1, keep=False)
    np.random.seed(int(rng.integers(10**6)))
    random.seed(int(rng.integers(10**6)))
    r1, _ = run(mon, cfg, 1, keep=False)
    if r0 is None or r1 is None:
        return
    mon.count("pairs of large ensembles")
    mon.sig("crowd", cfg["ld"]["type"], cfg["particles"]["number"])
    states_equal(mon, r0, r1, "repeated runs of large ensembles give identical states", input=summary(cfg))


# differences of two seeds that a lossy treatment might confuse
DELTAS = [1, 2, 7, 10, 100, 1000, 2**8, 10**4, 2**15, 2**16, 10**6, 2**31, 2**32, 2**40, 2**63, 2**64]


def run_distinct(rng, mon):
    """Different seeds give different random numbers, however similar the seeds are"""
    for sec in ("ld", "particles", "birth-death"):
        for ld_type in ("bussi-parinello", "overdamped"):
            cfg = flat(rng, bd=sec == "birth-death", ld_type=ld_type, factor=2000.0)
            cfg["ld"]["n_steps"] = 12
            base = int(rng.integers(0, 3)) if rng.random() < 0.5 else int(rng.integers(2**33))
            deltas = [1, 2] + [DELTAS[2 + int(i)] for i in rng.permutation(len(DELTAS) - 2)[:7]]
            seen = {}
            for s in [base] + [base + d for d in deltas]:
                cfg[sec]["seed"] = s
                r, _ = run(mon, cfg, 1, keep=False)
                if r is None:
                    return
                rec = r.rec
                if sec == "birth-death":
                    bits = sum(len(e) for _, e in rec.bd_events) * np.log2(rec.end_of_step[0].n - 1)
                    if bits < 36:
                        continue
                    key = str(rec.bd_events)
                elif sec == "particles":
                    key = rec.end_of_step[0].pos.tobytes()
                else:
                    key = (rec.after_ld[2].pos - rec.end_of_step[0].pos).tobytes()
                mon.count("seeds compared pairwise")
                mon.check(key not in seen, "different seeds give different random numbers", section=sec, seed=s,
                          same_as=seen.get(key), type=ld_type)
                seen[key] = s
                if mon.n_violations:
                    return
            mon.sig("distinct", sec, ld_type, base > 2, len(seen))


def run_objects(rng, mon):
    """The seed of integrators and birth-death objects, 0 included, fixes their random numbers"""
    from props import c07

    for seed in (0, 1, int(rng.integers(2, 10**6)), 2**33 + 3):
        for kind in ("bpld", "overdamped", "bulk", "recalc"):
            outs = []
            state = rng.bit_generator.state
            for k in range(2):
                rng.bit_generator.state = state
                np.random.seed(k + 1)
                setup = c07.build(rng, 8, kind == "recalc", 0.01, 1, 100.0, n_dim=1, seed=seed,
                                  over=kind == "overdamped")
                system, ld, bd = setup[:3]
                from vlib import systems

                if kind in ("bpld", "overdamped"):
                    mk = systems.overdamped(system, 0.01, seed) if kind == "overdamped" else systems.bpld(
                        system, 0.01, 2.0, 1.0, seed)
                    mk.add_particle([0.1], 1.0)
                    for step in range(1, 20):
                        mk.run(step)
                    outs.append(str(systems.state(mk.particles[0])))
                else:
                    outs.append(str([[(int(a), int(b)) for a, b in bd.do_birth_death()] for _ in range(10)]))
            mon.count("seeded objects")
            mon.sig("objects", kind, seed == 0)
            if not mon.check(outs[0] == outs[1], "seeded objects are reproducible", kind=kind, seed=seed):
                return


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(rerun=run_rerun, process=run_process, outputs=run_outputs, seeds=run_seeds,
         crowd=run_crowd, distinct=run_distinct, objects=run_objects)[case["mode"]](rng, mon)
