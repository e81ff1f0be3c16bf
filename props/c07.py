"""C07: birth-death moves kill over-represented and copy under-represented walkers"""
import numpy as np

from props import c05
from vlib import bdmodel, core, gen, ref, sim, systems

RULE = ("small ensembles: one signature per (variant, mode, size, quartiles of the event "
        "probabilities); replayed steps: per (mode, number of events, dimension, integrator); "
        "program runs: per (stride, steps)")
REQUIRED = {
    "events of known probability": 200000,
    "partners judged one by one": 1000,
    "small ensembles with exact outcome distribution": 60,
    "birth-death steps of small ensembles": 60000,
    "replayed steps": 800,
    "replayed events": 3000,
    "partners judged in large ensembles": 3000,
    "steps with judged order of events": 100,
    "program runs": 30,
    "time steps without birth-death": 200,
}
ASSUMPTIONS = [
    "outcome distributions are compared by chi-square tests (p < 1e-11 is a violation)",
    "rates at intermediate stages of the smoothed variants come from calc_betas (judged by C06)",
]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 14
    rate = [dict(mode="rate", seed=seed * 100283 + i, arg=a, recalc=r,
                 steps=(1500 if a < 0.2 else 400) * (1 if tier == "quick" else 4))
            for i in range(1 if tier == "quick" else 4) for r in (False, True)
            for a in (0.02, 0.05, 0.08, 0.12, 0.15, 0.5, 1.0, 3.0)]
    return (rate
            + [dict(mode="exact", seed=seed * 100207 + i) for i in range(24 * mul)]
            + [dict(mode="replay", seed=seed * 100213 + i) for i in range(16 * mul)]
            + [dict(mode="marginal", seed=seed * 100237 + i) for i in range(8 * mul)]
            + [dict(mode="large", seed=seed * 100271 + i) for i in range(12 * mul)]
            + [dict(mode="certain", seed=seed * 100279 + i) for i in range(4 * mul)]
            + [dict(mode="main", seed=seed * 100267 + i) for i in range(12 * mul)])


def build(rng, n, recalc, dt, stride, factor, variant="original", stats=None, seed=None, n_dim=None,
          stats_stride=None, over=False):
    """Integrator with n walkers at rest somewhere, and birth-death on them"""
    from bdld.actions import birth_death as bdm

    V = bdm.ApproxVariant
    n_dim = n_dim or (1 if variant != "original" else int(rng.choice([1, 1, 2, 3])))
    if variant == "original":
        system = systems.make(rng, n_dim=n_dim, coeffs=systems.confining(rng, n_dim),
                              ranges=[(-3.0, 3.0)] * n_dim)
    else:
        system = systems.make(rng, n_dim=1, coeffs=[0.0, 0.2, -2.0, 0.0, 0.7], ranges=[(-2.5, 2.5)])
    # at the low temperature rates are in the hundreds
    kt = 1.0 if over else float(rng.choice([0.6, 1.0, 2.0, 0.02] if variant == "original" else [0.6, 1.0, 2.0]))
    ld = systems.overdamped(system, dt, 1) if over else systems.bpld(system, dt, 2.0, kt, 1)
    bw = np.round(rng.uniform(0.2, 0.7, size=n_dim), 2)
    for _ in range(n):
        ld.add_particle(system.start(rng, 0.6), float(rng.choice([0.5, 1.0, 2.0])))
        ld.particles[-1].mom[:] = rng.normal(size=n_dim)
    dens = None
    if variant != "original":
        dens = system.pot.calculate_probability_density(kt, system.ranges, [101])
    var = {"original": None, "additive": V.add, "multiplicative": V.mult}[variant]
    if variant == "original" and rng.random() < 0.5:
        var = V.orig
    if seed is None:
        seed = int(rng.integers(10**9))
    with systems.quiet():
        args = (dt, stride, bw, kt, factor, recalc, var, dens)
        bd = bdm.BirthDeath(ld.particles, *args, seed, stats_stride, stats)
        shadow_list = []
        shadow = bdm.BirthDeath(shadow_list, *args, 1)
    return system, ld, bd, shadow, shadow_list, bw, kt


def tune(rng, betas):
    """dt*factor for which the mean event probability is interesting"""
    target = float(rng.choice([0.1, 0.4, 0.7, 0.95]))
    mean = np.mean(np.abs(betas)) + 1e-3
    return -np.log(1 - target) / mean


def restore(ld, saved):
    import copy

    for i, p in enumerate(saved):
        ld.particles[i] = copy.deepcopy(p)


def exact_setup(rng, recalc, variant, n, stats=None, stats_stride=None, few=False):
    """Small ensemble with rates of order one, birth-death object and rates per configuration"""
    import copy

    dt = float(rng.choice([0.001, 0.01, 0.2]))
    stride = int(rng.choice([1, 3, 10, 50, 130, 1000]))
    seed = int(rng.integers(10**9))
    state = rng.bit_generator.state
    # first with unit factor to learn the rates, then with the tuned factor
    first = build(rng, n, recalc, dt, stride, 1.0, variant, seed=seed)
    rates0 = rate_function(first, variant)
    b0 = rates0(tuple(range(n)))
    # few: about one event per step in the whole ensemble
    dtf = float(rng.choice([0.7, 2.0])) / np.sum(np.abs(b0)) if few else tune(rng, b0)
    factor = dtf / (dt * stride)
    keep = rng.bit_generator.state
    rng.bit_generator.state = state
    setup = build(rng, n, recalc, dt, stride, factor, variant, seed=seed, stats=stats,
                  stats_stride=stats_stride)
    rng.bit_generator.state = keep
    saved = [copy.deepcopy(p) for p in setup[1].particles]
    return setup, rate_function(setup, variant), dt * stride * factor, saved, dict(
        dt=dt, stride=stride, factor=factor, variant=variant, recalc=recalc, walkers=n)


def rate_function(setup, variant):
    system, ld, bd, shadow, shadow_list, bw, kt = setup
    particles = list(ld.particles)
    pos = np.array([p.pos for p in particles])
    ene = np.array([p.energy for p in particles])
    cache = {}

    def rates(slots):
        if slots not in cache:
            idx = list(slots)
            if variant == "original":
                cache[slots] = ref.beta_original(pos[idx], ene[idx], bw, kt)
            else:
                shadow_list[:] = [particles[i] for i in idx]
                cache[slots] = np.array(shadow.calc_betas(), dtype=float)
        return cache[slots]

    return rates


def same_state(a, b):
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def replay(mon, before, events, after, n, **w):
    """The event list, applied in order to the old ensemble, gives the new one"""
    model = list(before)
    ok = True
    for e in events:
        dup, kill = e
        ok &= mon.check(0 <= dup < n and 0 <= kill < n and dup != kill,
                        "events involve two different walkers", event=e, n=n, **w)
        if not ok:
            return False
        model[kill] = model[dup]
    if not mon.check(len(after) == n, "number of walkers is constant", got=len(after), **w):
        return False
    bad = [i for i in range(n) if not same_state(after[i], model[i])]
    return mon.check(not bad, "event list replays to exactly the resulting ensemble", events=events,
                     slots=bad, got=[after[i] for i in bad[:1]], want=[model[i] for i in bad[:1]], **w)


def run_exact(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(4):
        recalc = bool(rng.random() < 0.5)
        variant = str(rng.choice(["original", "original", "original", "additive", "multiplicative"]))
        n = int(rng.choice([2, 3, 3, 4] if variant == "original" and not recalc else [2, 3, 3]))
        setup, rates, dtf, saved, w = exact_setup(rng, recalc, variant, n)
        ld, bd = setup[1], setup[2]
        b0 = rates(tuple(range(n)))
        dist = {}
        for k, p in bdmodel.outcomes(n, rates, dtf, recalc).items():
            key = k if k == "rest" else k[0]
            dist[key] = dist.get(key, 0.0) + p
        reps = 1200 if variant == "original" else 500
        observed = {}
        before = [systems.state(p) for p in saved]
        for k in range(reps):
            restore(ld, saved)
            ev = bd.do_birth_death()
            ev = tuple((int(a), int(b)) for a, b in ev)
            observed[ev] = observed.get(ev, 0) + 1
            if k % 10 == 0:
                if not replay(mon, before, ev, [systems.state(p) for p in ld.particles], n, **w):
                    return
        mon.count("small ensembles with exact outcome distribution")
        mon.count("birth-death steps of small ensembles", reps)
        mon.count("distinct outcomes seen", len(observed))
        mon.sig("exact", variant, recalc, n, np.round(1 - np.exp(-np.abs(b0) * dtf), 1))
        p, impossible, dev = bdmodel.compare(observed, dist, reps)
        mon.check(not impossible, "only documented outcomes of a birth-death step occur",
                  impossible=impossible[:4], betas=b0, prob=1 - np.exp(-np.abs(b0) * dtf), **w)
        mon.check(p > 1e-11, "outcomes of a birth-death step have the documented probabilities",
                  p_value=p, largest_deviations=dev, betas=b0,
                  prob=1 - np.exp(-np.abs(b0) * dtf), **w)
        pool_outcomes(mon, observed, dist, reps, f"{variant} recalc={recalc}")
        if mon.n_violations:
            return
    mon.sample(dict(setup=w, betas=b0, observed={str(k): v for k, v in list(observed.items())[:8]}))


def pool_outcomes(mon, observed, dist, reps, label):
    """Pool number of events and no-event frequency over all ensembles (normal scores)"""
    q = dist.get((), 0.0)
    m1 = sum(p * len(o) for o, p in dist.items() if o != "rest")
    m2 = sum(p * len(o) ** 2 for o, p in dist.items() if o != "rest")
    obs = sum(len(o) * c for o, c in observed.items())
    var = reps * (m2 - m1 * m1)
    for name, x, mu, v in (("no event", observed.get((), 0), reps * q, reps * q * (1 - q)),
                           ("events", obs, reps * m1, var)):
        if v > 5:
            mon.pool(f"z {name} {label}", (x - mu) / np.sqrt(v))


def run_marginal(case, mon):
    """Larger ensembles: distribution of the first event of a step"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(2):
        recalc = bool(rng.random() < 0.4)
        n = int(rng.choice([8, 15, 25])) if rep == 0 else int(rng.choice([40, 120, 200]))
        setup, rates, dtf, saved, w = exact_setup(rng, recalc, "original", n, few=rep == 1)
        ld, bd = setup[1], setup[2]
        b = rates(tuple(range(n)))
        if dtf * np.abs(b).mean() > 0.6:  # keep steps without event frequent enough
            w["note"] = "many events"
        p = 1 - np.exp(-np.abs(b) * dtf)
        # probability that walker i triggers the first event: p_i int_0^1 prod_k!=i (1-t p_k) dt
        x, wx = np.polynomial.legendre.leggauss(60)
        t, wt = 0.5 * (x + 1), 0.5 * wx
        first = np.array([
            p[i] * np.sum(wt * np.prod([1 - t * p[k] for k in range(n) if k != i], axis=0))
            for i in range(n)
        ])
        none = float(np.prod(1 - p))
        dup_p = np.zeros(n)
        kill_p = np.zeros(n)
        for i in range(n):
            others = [j for j in range(n) if j != i]
            if b[i] > 0:
                kill_p[i] += first[i]
                dup_p[others] += first[i] / (n - 1)
            else:
                dup_p[i] += first[i]
                kill_p[others] += first[i] / (n - 1)
        reps = 1500 if not recalc else 500
        dup_o, kill_o, none_o = {}, {}, 0
        before = [systems.state(q) for q in saved]
        for k in range(reps):
            restore(ld, saved)
            ev = [(int(a), int(c)) for a, c in bd.do_birth_death()]
            if k % 20 == 0 and not replay(mon, before, ev, [systems.state(q) for q in ld.particles], n, **w):
                return
            if not ev:
                none_o += 1
                continue
            dup_o[ev[0][0]] = dup_o.get(ev[0][0], 0) + 1
            kill_o[ev[0][1]] = kill_o.get(ev[0][1], 0) + 1
        mon.count("birth-death steps of larger ensembles", reps)
        mon.sig("marginal", recalc, n, round(none, 1))
        for name, o, q in (("copied", dup_o, dup_p), ("killed", kill_o, kill_p)):
            dist = {i: float(v) for i, v in enumerate(q)}
            dist["none"] = none
            o = dict(o)
            o["none"] = none_o
            pv, imp, dev = bdmodel.compare(o, dist, reps)
            mon.check(pv > 1e-11 and not imp, "first event of a step has the documented distribution",
                      which=name, p_value=pv, deviations=dev, impossible=imp, betas=b, **w)


def run_replay(case, mon):
    """Histories of dynamics and birth-death steps; every step is explained and replayed"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(4):
        recalc = bool(rng.random() < 0.5)
        over = bool(rng.random() < 0.3)
        n = int(rng.choice([2, 3, 6, 12, 30]))
        if rep == 3:
            n = int(rng.choice([60, 110, 180]))
        dt = 0.01
        stride = int(rng.choice([1, 5]))
        factor = float(rng.choice([None, 3.0, 50.0, 1e3, 1e7]) or 1.0)
        setup = build(rng, n, recalc, dt, stride, factor, over=over)
        system, ld, bd, shadow, shadow_list, bw, kt = setup
        for step in range(1, 31 if n < 50 else 9):
            ld.run(step)
            before = [systems.state(p) for p in ld.particles]
            ev = [(int(a), int(b)) for a, b in bd.do_birth_death()]
            after = [systems.state(p) for p in ld.particles]
            mon.count("replayed steps")
            mon.count("replayed events", len(ev))
            w = dict(n=n, recalc=recalc, factor=factor, stride=stride, step=step)
            w.pop("n")
            if not replay(mon, before, ev, after, n, **w):
                return
            # every event has a trigger with the right sign of its rate
            pos = np.array([s[0] for s in before])
            ene = np.array([s[3] for s in before])
            stages = []
            b = ref.beta_original(pos, ene, bw, kt)
            b0 = b
            for dup, kill in ev:
                stages.append(b)
                if recalc:
                    pos[kill], ene[kill] = pos[dup], ene[dup]
                    b = ref.beta_original(pos, ene, bw, kt)
            ok, cand = bdmodel.explain(ev, stages, not recalc)
            mon.check(ok, "every event follows from the sign of a rate", events=ev, betas=b0,
                      candidates=cand, **w)
            mon.check(len(ev) <= n, "at most one event per walker and step", events=len(ev), **w)
            p = 1 - np.exp(-np.abs(b0) * dt * stride * factor)
            if np.all(p > 1 - 1e-12):
                mon.check(len(ev) > 0, "events happen when all probabilities are one", **w)
                mon.count("steps with certain events")
            if np.all(p < 1e-12):
                mon.check(not ev, "no events when all probabilities are zero", **w)
            mon.sig("replay", recalc, over, n, len(ev), system.n_dim)
            if rng.random() < 0.3:
                c05.probe_sharing(mon, ld.particles, rng, "after birth-death")
            if mon.n_violations:
                return


def run_large(case, mon):
    """Large ensembles with many events per step: partners and order of processing

    With both rates positive the killed walker triggered the event, with both negative the
    copied one: there the partner is uniform among the other walkers with that sign.
    """
    rng = np.random.default_rng(case["seed"])
    recalc = bool(case["seed"] % 2)
    n = int(rng.choice([60, 90, 110] if recalc else [130, 250, 400]))
    setup, rates, dtf, saved, w = exact_setup(rng, recalc, "original", n)
    system, ld, bd, _, _, bw, kt = setup
    label = f"recalc={recalc}"
    pos0 = np.array([p.pos for p in saved])
    ene0 = np.array([p.energy for p in saved])
    deciles = np.zeros(10)
    hits, expected = np.zeros(n), np.zeros(n)
    for k in range(12 if recalc else 60):
        restore(ld, saved)
        # other walkers at other places of the list: the order in the list is irrelevant
        perm = rng.permutation(n)
        ld.particles[:] = [ld.particles[i] for i in perm]
        before = [systems.state(p) for p in ld.particles]
        ev = [(int(a), int(c)) for a, c in bd.do_birth_death()]
        if k % 5 == 0 and not replay(mon, before, ev, [systems.state(p) for p in ld.particles], n, **w):
            return
        pos, ene = pos0[perm], ene0[perm]
        b = ref.beta_original(pos, ene, bw, kt)
        stages, trig = [], []
        for dup, kill in ev:
            stages.append(b)
            s = np.sign(b[kill]) * (np.abs(b[kill]) > 1e-9)
            if s and s == np.sign(b[dup]) * (np.abs(b[dup]) > 1e-9):
                t, o = (kill, dup) if s > 0 else (dup, kill)
                same = [j for j in np.flatnonzero(np.sign(b) == s) if j != t]
                trig.append(t)
                if len(same) >= 20:
                    hits[o] += 1
                    expected[same] += 1 / len(same)
                    r = same.index(o)
                    m = len(same)
                    # spread the step of the distribution function evenly
                    deciles[int(10 * (r + rng.random()) / m)] += 1
                    mon.count("partners judged in large ensembles")
            if recalc:
                pos[kill], ene[kill] = pos[dup], ene[dup]
                b = ref.beta_original(pos, ene, bw, kt)
        ok, cand = bdmodel.explain(ev, stages, not recalc)
        mon.check(ok, "every event follows from the sign of a rate", events=ev[:20], candidates=cand[:20], **w)
        mon.count("replayed steps")
        mon.count("replayed events", len(ev))
        if len(trig) >= 5:
            # mean rank of the trigger against the order of events
            x = np.arange(len(trig)) - (len(trig) - 1) / 2
            y = np.argsort(np.argsort(trig)) - (len(trig) - 1) / 2
            r = np.sum(x * y) / np.sum(x * x)
            mon.pool(f"z order of events {label}", float(r * np.sqrt(len(trig) - 1)))
            mon.count("steps with judged order of events")
        if mon.n_violations:
            return
    if expected.sum() > 5 * n:
        z = (np.sum((hits - expected) ** 2 / expected) - n) / np.sqrt(2 * n)
        mon.count("partners judged one by one", hits.sum())
        mon.check(z < 9, "partners are chosen uniformly", z=z, walkers=n, draws=hits.sum(), recalc=recalc)
    if deciles.sum() > 100:
        e = deciles.sum() / 10
        pv = bdmodel.chi2_sf(float(np.sum((deciles - e) ** 2 / e)), 9)
        mon.check(pv > 1e-11, "partners are chosen uniformly", deciles=deciles, p_value=pv, **w)
        for q in range(10):
            mon.pool(f"z partner decile {q} {label}", float((deciles[q] - e) / np.sqrt(0.9 * e)))
    mon.sig("large", recalc, n, system.n_dim, len(ev) // 10)


def run_certain(case, mon):
    """Probabilities of one: every walker takes part"""
    rng = np.random.default_rng(case["seed"])
    for rep in range(12):
        recalc = bool(rep % 2)
        n = int(rng.integers(3, 40)) if recalc else int(rng.integers(20, 400))
        setup = build(rng, n, recalc, 0.01, 1, 1e30, over=bool(rng.random() < 0.3))
        system, ld, bd, _, _, bw, kt = setup
        pos = np.array([p.pos for p in ld.particles])
        ene = np.array([p.energy for p in ld.particles])
        b = ref.beta_original(pos, ene, bw, kt)
        ev = [(int(a), int(c)) for a, c in bd.do_birth_death()]
        mon.count("steps with certain events")
        mon.sig("certain", recalc, n)
        w = dict(n=n, recalc=recalc, events=len(ev))
        if recalc:
            left = len(np.unique(np.array([p.pos for p in ld.particles]), axis=0))
            if left >= 3:  # rates do not vanish
                mon.check(len(ev) == n, "every walker triggers an event if its probability is one", left=left, **w)
        else:
            kills, dups = {k for _, k in ev}, {d for d, _ in ev}
            sure = np.abs(b) > 1e-6
            idle = [i for i in np.flatnonzero(sure) if i not in kills and (b[i] > 0 or i not in dups)]
            mon.check(not idle, "every walker triggers an event if its probability is one", idle=idle[:5],
                      rates=b[idle[:5]], **w)
        if mon.n_violations:
            return


def run_main(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(4):
        n_steps = int(rng.integers(8, 40)) if rep else int(rng.integers(60, 260))
        cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd=True)
        stride = int(rng.choice([1, 2, 3, 7, 10, 50] if rep else [11, 16, 23, 30, 50, 64, 101, 128]))
        cfg["birth-death"]["stride"] = stride
        cfg["birth-death"]["exponential-factor"] = float(rng.choice([10.0, 1e3, 1e4]))
        if rng.random() < 0.3:
            cfg["trajectories"] = {"write-stride": 5}
        res = sim.must_run(mon, cfg)
        if res is None:
            return
        rec = res.rec
        mon.count("program runs")
        mon.sig("main", stride, n_steps, cfg["birth-death"].get("recalculate-probabilities"))
        done = [s for s, _ in rec.bd_events]
        mon.check(done == list(range(stride, n_steps + 1, stride)),
                  "birth-death happens at the multiples of the stride only", got=done, stride=stride,
                  n_steps=n_steps)
        if not mon.check(len(rec.after_ld) == len(rec.after_bd) == n_steps, "one birth-death action per step"):
            return
        events = dict(rec.bd_events)
        for k in range(n_steps):
            step = k + 1
            if step not in events:
                mon.count("time steps without birth-death")
                mon.check(rec.after_ld[k].same(rec.after_bd[k]),
                          "nothing changes outside birth-death steps", step=step)
            else:
                a, b = rec.after_ld[k], rec.after_bd[k]
                states = lambda s: [(s.pos[i], s.mom[i], s.mass[i], s.energy[i], s.forces[i])
                                    for i in range(s.n)]
                mon.count("replayed steps")
                mon.count("replayed events", len(events[step]))
                replay(mon, states(a), events[step], states(b), a.n, step=step)
        if mon.n_violations:
            return


def two_groups(rng, n, k, p, birth, recalc, steps):
    """Events per step of the documented algorithm with walkers in two places

    k walkers are in the first place; p(k) are the two probabilities, birth(k) whether these
    walkers trigger births.  Returns numbers of events by place of source and of victim.
    """
    out = np.zeros((steps, 4))
    start = np.zeros(n, dtype=int)
    start[k:] = 1
    for s in range(steps):
        if not recalc:
            prob, b = np.array(p(k))[start], birth(k)
            trig = np.flatnonzero(rng.random(n) < prob)
            rng.shuffle(trig)
            gone = set()
            for i in trig:
                if i in gone:
                    continue
                o = int(rng.integers(n - 1))
                o += o >= i
                dup, kill = (i, o) if b[start[i]] else (o, i)
                gone.add(kill)
                out[s, 2 * start[dup] + start[kill]] += 1
        else:
            place = start.copy()
            m = k
            r = rng.random(n)
            for i in rng.permutation(n):
                if r[i] < p(m)[place[i]]:
                    o = int(rng.integers(n - 1))
                    o += o >= i
                    dup, kill = (i, o) if birth(m)[place[i]] else (o, i)
                    out[s, 2 * place[dup] + place[kill]] += 1
                    m += int(place[kill]) - int(place[dup])
                    place[kill] = place[dup]
    return out


def run_rate(case, mon):
    """Numbers of events of many walkers with known equal probabilities"""
    import copy

    from bdld.actions import birth_death as bdm

    rng = np.random.default_rng(case["seed"])
    recalc, arg = case["recalc"], case["arg"]
    n = 50 if recalc else 400
    k = n // 2 if rng.random() < 0.5 else int(n * rng.uniform(0.3, 0.7))
    system = systems.make(rng, n_dim=1, coeffs=[0.0, float(rng.uniform(0.5, 1.0)), 0.5], ranges=[(-3.0, 3.0)])
    kt, bw, dt, stride = 1.0, np.array([0.4]), 0.01, int(rng.choice([1, 7]))
    x = [np.array([-0.5]), np.array([float(rng.uniform(0.3, 1.2))])]
    ene = np.array([system.ref.energy(v) for v in x])
    both = np.array(x)

    def beta(m):
        """Rates in the two places with m walkers in the first"""
        g0, g1 = 1.0, float(np.exp(-((both[0, 0] - both[1, 0]) ** 2) / (2 * bw[0] ** 2)))
        b = np.log(np.array([m * g0 + (n - m) * g1, m * g1 + (n - m) * g0])) + ene / kt
        return b - (m * b[0] + (n - m) * b[1]) / n

    fac = arg / (np.abs(beta(k)).max() * dt * stride)
    memo = {}

    def p(m):
        if m not in memo:
            memo[m] = 1 - np.exp(-np.abs(beta(m)) * dt * stride * fac)
        return memo[m]

    ld = systems.bpld(system, dt, 2.0, kt, 1)
    for i in range(n):
        ld.add_particle(x[int(i >= k)], 1.0)
    with systems.quiet():
        bd = bdm.BirthDeath(ld.particles, dt, stride, bw, kt, fac, recalc, None, None, int(rng.integers(10**9)))
    saved = [copy.deepcopy(q) for q in ld.particles]
    steps = case["steps"]
    got = np.zeros((steps, 4))
    for s in range(steps):
        ev = [(int(a), int(c)) for a, c in bd.do_birth_death()]
        # the place of the source at that moment
        place = [int(i >= k) for i in range(n)] if recalc else None
        for dup, kill in ev:
            if recalc:
                got[s, 2 * place[dup] + place[kill]] += 1
                place[kill] = place[dup]
            else:
                got[s, 2 * int(dup >= k) + int(kill >= k)] += 1
        for j in {c for _, c in ev}:
            ld.particles[j] = copy.deepcopy(saved[j])
    want = two_groups(rng, n, k, p, lambda m: beta(m) < 0, recalc, 3 * steps)
    mon.count("events of known probability", got.sum())
    mon.sig("rate", recalc, arg, k)
    for name, cols in (("all", [0, 1, 2, 3]), ("0 to 0", [0]), ("0 to 1", [1]), ("1 to 0", [2]), ("1 to 1", [3])):
        a, b = got[:, cols].sum(axis=1), want[:, cols].sum(axis=1)
        if b.sum() < 500:
            continue
        z = (a.mean() - b.mean()) / np.sqrt(a.var() / len(a) + b.var() / len(b) + 1e-12)
        if not mon.check(abs(z) < 7, "events happen with the documented probability", kind=name, z=z, got=a.mean(),
                         want=b.mean(), arg=arg, recalc=recalc, walkers=n):
            return
        if name == "all":
            mon.pool(f"z number of events recalc={recalc} {'small' if arg < 0.2 else 'large'} probabilities", float(z))


def run_case(case, mon):
    dict(exact=run_exact, replay=run_replay, large=run_large, marginal=run_marginal, main=run_main,
         certain=run_certain, rate=run_rate)[case["mode"]](case, mon)


def finalize(mon, tier):
    for name, p in sorted(mon.pools.items()):
        if name.startswith("z "):
            z = p[1] / np.sqrt(p[0])
            mon.check(abs(z) < 7, "event frequencies pooled over all ensembles", pool=name, n=p[0], z=z)
