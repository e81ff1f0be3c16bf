"""C08: birth-death statistics account for every attempt and event"""
import math
import os
import re

import numpy as np

from props import c07
from vlib import bdmodel, gen, ref, sim, systems

RULE = ("small ensembles: per (variant, mode, size, rounded probabilities); larger: per (mode, size, "
        "dimension); program runs: per (output kind, stride, statistics stride, steps)")
REQUIRED = {
    "small ensembles with exact distribution of statistics": 30,
    "birth-death steps with accounted statistics": 20000,
    "events accounted": 5000,
    "program runs reporting to file": 20,
    "program runs reporting to screen": 20,
    "screen reports": 60,
    "file reports": 100,
    "steps with rates of exactly zero": 20,
    "attempts in long histories": 2000000,
}
ASSUMPTIONS = [
    "the joint distribution of events, attempts and successes is compared by chi-square tests "
    "(p < 1e-11 is a violation)",
    "walkers whose rate is zero within 1e-9 may count as either kind of attempt, except for one or two "
    "coincident walkers, whose rates are exactly zero in floating point arithmetic as well",
]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 14
    return ([dict(mode="exact", seed=seed * 100291 + i) for i in range(16 * mul)]
            + [dict(mode="steps", seed=seed * 100297 + i) for i in range(16 * mul)]
            + [dict(mode="long", recalc=bool(i % 2), seed=seed * 100317 + i) for i in range(2 if tier == "quick" else 8)]
            + [dict(mode="main", seed=seed * 100313 + i) for i in range(16 * mul)])


class Watched:
    """Runs the birth-death action and returns events and change of the statistics"""

    def __init__(self, mon, bd, fname, n):
        self.mon, self.bd, self.fname, self.n = mon, bd, fname, n
        self.events = []
        self.step = 0
        self.prev = np.zeros(4, dtype=int)
        self.pos = 0
        orig = bd.do_birth_death

        def do_birth_death(*args, **kw):
            res = orig(*args, **kw)
            self.events.append(tuple((int(a), int(b)) for a, b in res))
            return res

        bd.do_birth_death = do_birth_death
        fields, _, rows = sim.read_table(fname)
        mon.check(rows == [], "no statistics before the first step", rows=rows)
        mon.check(fields is not None and len(fields) == 5, "header names every column of the statistics",
                  fields=fields)
        self.pos = os.path.getsize(fname)

    def run(self, **w):
        """One birth-death step: returns (events, birth succ, birth att, death succ, death att)"""
        self.step += self.bd.stride
        before = len(self.events)
        self.bd.run(self.step)
        with open(self.fname) as f:
            f.seek(self.pos)
            text = f.read()
        self.pos += len(text.encode())
        lines = text.split("\n")
        if not self.mon.check(len(lines) == 2 and lines[1] == "" and len(lines[0].split()) == 5
                              and len(self.events) == before + 1,
                              "one line of statistics per report", text=text, **w):
            return None
        v = np.array([float(x) for x in lines[0].split()])
        self.mon.check(v[0] == self.step, "statistics are labelled with the time step", line=lines[0],
                       want=self.step, **w)
        d = v[1:] - self.prev
        self.prev = v[1:]
        ev = self.events[-1]
        self.mon.count("birth-death steps with accounted statistics")
        self.mon.count("events accounted", len(ev))
        ok = self.mon.check(d[1] + d[3] == self.n, "every walker is one attempt", change=d, n=self.n,
                            events=ev, **w)
        ok &= self.mon.check(d[0] + d[2] == len(ev), "every event is one success", change=d,
                             events=ev, **w)
        ok &= self.mon.check(np.all(d >= 0) and d[0] <= d[1] and d[2] <= d[3],
                             "not more successes than attempts of a kind", change=d, events=ev, **w)
        return (ev, *[int(x) for x in d]) if ok else None


def run_exact(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(3):
        recalc = bool(rng.random() < 0.5)
        variant = str(rng.choice(["original", "original", "original", "additive", "multiplicative"]))
        n = int(rng.choice([2, 3, 3]))
        setup, rates, dtf, saved, w = c07.exact_setup(rng, recalc, variant, n, stats=f"stats{rep}",
                                                      stats_stride=1)
        ld, bd = setup[1], setup[2]
        b0 = rates(tuple(range(n)))
        dist = bdmodel.outcomes(n, rates, dtf, recalc)
        reps = 700 if variant == "original" else 400
        watch = Watched(mon, bd, f"stats{rep}", n)
        observed = {}
        for k in range(reps):
            c07.restore(ld, saved)
            res = watch.run(**w)
            if res is None:
                return
            key = (res[0], res[4], res[3])
            observed[key] = observed.get(key, 0) + 1
        mon.count("small ensembles with exact distribution of statistics")
        mon.sig("exact", variant, recalc, n, np.round(1 - np.exp(-np.abs(b0) * dtf), 1))
        p, impossible, dev = bdmodel.compare(observed, dist, reps)
        witness = dict(betas=b0, prob=1 - np.exp(-np.abs(b0) * dtf), key="(events, death attempts, "
                       "death successes)", **w)
        mon.check(not impossible, "attempts and successes match the kind of every walker and event",
                  impossible=impossible[:4], **witness)
        mon.check(p > 1e-11, "joint distribution of events, attempts and successes", p_value=p,
                  largest_deviations=dev, **witness)
        for i, what in ((1, "death attempts"), (2, "death successes")):
            mu = sum(q * k[i] for k, q in dist.items() if k != "rest")
            m2 = sum(q * k[i] ** 2 for k, q in dist.items() if k != "rest")
            var = reps * (m2 - mu * mu)
            if var > 5:
                obs = sum(c * k[i] for k, c in observed.items())
                mon.pool(f"z {what} recalc={recalc}", (obs - reps * mu) / np.sqrt(var))
        if mon.n_violations:
            return
    mon.sample(dict(setup=w, betas=b0, observed={str(k): v for k, v in list(observed.items())[:6]}))


def kinds(ev, stages):
    """Bounds on the number of death successes among the events"""
    lo = hi = 0
    for (dup, kill), b in zip(ev, stages):
        can_kill = b[kill] > -1e-9
        can_dup = b[dup] < 1e-9
        hi += can_kill
        lo += can_kill and not can_dup
    return lo, hi


def stages_of(before, ev, bw, kt, recalc):
    pos = np.array([s[0] for s in before])
    ene = np.array([s[3] for s in before])
    b = ref.beta_original(pos, ene, bw, kt)
    out = [b]
    for dup, kill in ev:
        if recalc:
            pos[kill], ene[kill] = pos[dup], ene[dup]
            b = ref.beta_original(pos, ene, bw, kt)
        out.append(b)
    return out


def judge_step(mon, before, ev, d, bw, kt, recalc, /, **w):
    """d: change of birth succ, birth att, death succ, death att in one step"""
    st = stages_of(before, ev, bw, kt, recalc)
    b0 = st[0]
    if len(before) <= 2 and all(np.array_equal(s[0], before[0][0]) and s[3] == before[0][3] for s in before):
        # one or two coincident walkers: the rates are exactly zero, also in floating point numbers
        mon.count("steps with rates of exactly zero")
        mon.check(d[3] == 0 and not ev, "a rate of exactly zero is a birth attempt without event", change=d,
                  events=ev, **w)
        return
    lo, hi = kinds(ev, st)
    mon.check(lo <= d[2] <= hi, "successes are counted for the kind that triggered them", change=d,
              events=ev, bounds=(lo, hi), betas=b0, **w)
    if not recalc:
        a_lo, a_hi = int((b0 > 1e-9).sum()), int((b0 > -1e-9).sum())
    else:
        stack = np.array(st)
        a_lo = int((stack > 1e-9).all(axis=0).sum())
        a_hi = int((stack > -1e-9).any(axis=0).sum())
    mon.check(a_lo <= d[3] <= a_hi, "death attempts are the walkers with positive rate", change=d,
              bounds=(a_lo, a_hi), events=ev, betas=b0, **w)


def run_steps(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(3):
        recalc = bool(rng.random() < 0.5)
        n = int(rng.choice([2, 5, 12, 25]))
        stride = int(rng.choice([1, 4, 150]))
        factor = float(rng.choice([3.0, 50.0, 1e3]))
        coincident = rng.random() < 0.3
        if rep == 2:
            coincident, n = True, 2
        setup = c07.build(rng, n, recalc, 0.01, stride, factor, stats=f"st{rep}", stats_stride=1)
        system, ld, bd, shadow, shadow_list, bw, kt = setup
        if coincident:  # ensembles with all rates zero
            for p in ld.particles:
                p.pos[:] = ld.particles[0].pos
                p.energy = ld.particles[0].energy
        watch = Watched(mon, bd, f"st{rep}", n)
        for step in range(60):
            before = [systems.state(p) for p in ld.particles]
            w = dict(recalc=recalc, factor=factor, stride=stride, walkers=n, round_=step)
            res = watch.run(**w)
            if res is None:
                return
            judge_step(mon, before, res[0], res[1:], bw, kt, recalc, **w)
            if not (coincident and step < 3):
                ld.run(step + 1)
                if step % 5 == 0:
                    for p in ld.particles:
                        p.pos[:] = system.start(rng, 0.7)
                        p.energy = float(system.ref.energy(p.pos))
            if mon.n_violations:
                return
        mon.sig("steps", recalc, n, system.n_dim, coincident)


def run_long(case, mon):
    """Counters beyond a million attempts stay exact"""
    rng = np.random.default_rng(case["seed"])
    recalc = case["recalc"]
    n = int(rng.integers(110, 140))
    setup = c07.build(rng, n, recalc, 1e-4, 1, 1e-2, stats="long", stats_stride=1, n_dim=1)
    ld, bd = setup[1], setup[2]
    watch = Watched(mon, bd, "long", n)
    for k in range(10500 if recalc else 17000):
        if watch.run(recalc=recalc, walkers=n, round_=k) is None:
            return
    mon.count("attempts in long histories", int(watch.prev[1] + watch.prev[3]))
    mon.sig("long", recalc, n)


NUM = r"(nan|-?inf|[-+0-9.e]+)"
REPORT = re.compile(
    r"After (\d+) time steps:\s*\n"
    r"\s*Birth events: (\d+)/(\d+) \(" + NUM + r"%\)\s*\n"
    r"\s*Death events: (\d+)/(\d+) \(" + NUM + r"%\)\s*\n"
    r"\s*Ratio birth/death: " + NUM + r" \(\w+\) / " + NUM + r" \(\w+\)"
)


def ratio_ok(text, a, b, scale=1.0):
    x = float(text)
    if b == 0:
        return not math.isfinite(x)
    want = scale * a / b
    return abs(x - want) <= 6e-4 * abs(want) + 1e-12


def run_main(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(5):
        n_steps = int(rng.integers(5, 60))
        cfg, n_dim, ranges = gen.base_config(rng, n_steps, bd=True, bc=None)
        bdsec = cfg["birth-death"]
        bdsec["stride"] = int(rng.choice([1, 2, 3, 5, 80]))
        bdsec["exponential-factor"] = float(rng.choice([10.0, 1e3, 1e5]))
        orig = bdsec.get("approximation-variant", "original") in ("original", "orig")
        stats_stride = [None, 1, 2, 3, 7, 10, 100][int(rng.integers(7))]
        to_file = bool(rng.random() < 0.5)
        if stats_stride:
            bdsec["stats-stride"] = stats_stride
        if to_file:
            bdsec["stats-filename"] = f"stats{rep}"
        res = sim.must_run(mon, cfg)
        if res is None:
            return
        rec = res.rec
        n = rec.end_of_step[0].n
        stride = bdsec["stride"]
        steps = (list(range(stats_stride, n_steps + 1, stats_stride)) if stats_stride else [n_steps])
        w = dict(stride=stride, stats_stride=stats_stride, n_steps=n_steps, n=n)
        # successes after every step
        cum = np.zeros(n_steps + 1, dtype=int)
        for s, ev in rec.bd_events:
            cum[s:] += len(ev)
        mon.sig("main", to_file, stride, stats_stride, n_steps)
        if to_file:
            mon.count("program runs reporting to file")
            fields, consts, rows = sim.read_table(f"stats{rep}")
            v = sim.table_values(rows).reshape(-1, 5) if all(len(r) == 5 for r in rows) else None
            if not mon.check(v is not None, "five columns per line of statistics", rows=rows[:3], **w):
                return
            mon.check(not REPORT.search(res.stdout), "statistics go to the file if one is given", **w)
            mon.count("file reports", len(v))
        else:
            mon.count("program runs reporting to screen")
            found = REPORT.findall(res.stdout)
            v = np.array([[float(f[0]), float(f[1]), float(f[2]), float(f[4]), float(f[5])]
                          for f in found]).reshape(-1, 5)
            mon.count("screen reports", len(v))
            for f in found:
                bs, ba, ds, da = int(f[1]), int(f[2]), int(f[4]), int(f[5])
                mon.check(ratio_ok(f[3], bs, ba, 100.0) and ratio_ok(f[6], ds, da, 100.0),
                          "percentages match the counts", report=f, **w)
                mon.check(ratio_ok(f[7], bs, ds) and ratio_ok(f[8], ba, da),
                          "ratios match the counts", report=f, **w)
        if not mon.check(v[:, 0].tolist() == [float(s) for s in steps],
                         "statistics are reported at the multiples of the statistics stride",
                         got=v[:, 0], want=steps, **w):
            return
        for row in v:
            s = int(row[0])
            n_bd = s // stride
            mon.check(row[2] + row[4] == n * n_bd, "every walker is one attempt", line=row,
                      want=n * n_bd, **w)
            mon.check(row[1] + row[3] == cum[s], "every event is one success", line=row, want=cum[s], **w)
        # kinds for the original variant from recorded ensembles
        if orig and rec.after_ld[0].n == n and np.all(np.isfinite(rec.end_of_step[-1].energy)):
            recalc = bool(bdsec.get("recalculate-probabilities") or False)
            kt = cfg["ld"].get("kt", 1.0)
            bw = np.atleast_1d(np.array(bdsec["kernel-bandwidth"], dtype=float))
            lo = np.zeros((n_steps + 1, 4), dtype=int)
            hi = np.zeros((n_steps + 1, 4), dtype=int)
            for s, ev in rec.bd_events:
                snap = rec.after_ld[s - 1]
                before = [(snap.pos[i], snap.mom[i], snap.mass[i], snap.energy[i]) for i in range(n)]
                st = stages_of(before, ev, bw, kt, recalc)
                stack = np.array(st if recalc else st[:1])
                l, h = kinds(ev, st)
                lo[s:] += [len(ev) - h, n - int((stack > -1e-9).any(axis=0).sum()), l,
                           int((stack > 1e-9).all(axis=0).sum())]
                hi[s:] += [len(ev) - l, n - int((stack > 1e-9).all(axis=0).sum()), h,
                           int((stack > -1e-9).any(axis=0).sum())]
            for row in v:
                s = int(row[0])
                mon.check(np.all(lo[s] <= row[1:]) and np.all(row[1:] <= hi[s]),
                          "reported kinds of attempts and successes follow from the rates",
                          line=row, low=lo[s], high=hi[s], **w)
                mon.count("reports with judged kinds")
        if mon.n_violations:
            return


def run_case(case, mon):
    dict(exact=run_exact, steps=run_steps, long=run_long, main=run_main)[case["mode"]](case, mon)


def finalize(mon, tier):
    for name, p in sorted(mon.pools.items()):
        if name.startswith("z "):
            z = p[1] / np.sqrt(p[0])
            mon.check(abs(z) < 7, "statistics pooled over all ensembles", pool=name, n=p[0], z=z)
