"""Output sections of an input file and what their files have to contain

The expectations are computed from states recorded while the program ran and from the
documented meaning of the options only.
"""
import os
import re

import numpy as np

from vlib import gen, ref, sim

FMTS = [None, None, None, "%14.9f", "%.6e", "%.4f", "%20.15g", "%g", "%e", "%20f", "%-13.7E"]


def pick(rng, items):
    return items[int(rng.integers(len(items)))]


def cfg_fmt(fmt):
    """configparser needs doubled percent signs"""
    return fmt.replace("%", "%%") if fmt else None


# --- sections


def traj_section(rng, filename=None, strides=None):
    st = pick(rng, strides or [None, 1, 2, 3, 4, 5, 7, 10])
    ws = pick(rng, [None, 1, 2, 3, 4, 5, 6, 7, 10, 13, 20, 50, 100, 200])
    sec = {}
    if st:
        sec["stride"] = st
    if ws:
        sec["write-stride"] = ws
    if filename:
        sec["filename"] = filename
        f = pick(rng, FMTS)
        if f:
            sec["fmt"] = cfg_fmt(f)
    if rng.random() < 0.4:
        sec["momentum"] = bool(rng.random() < 0.7)
    if not sec:
        sec["stride"] = 1
    return sec


def dyadic_ranges(rng, n_dim):
    """Ranges and bins whose midpoints are exact floating point numbers"""
    rr = [pick(rng, [(-2.0, 2.0), (-4.0, 4.0), (0.0, 4.0), (-1.0, 3.0)]) for _ in range(n_dim)]
    nb = [pick(rng, {1: [4, 16, 64], 2: [2, 4, 8], 3: [2, 4]}[n_dim]) for _ in range(n_dim)]
    return rr, nb


def histo_section(rng, n_dim, ranges, n_steps, filename=None, dyadic=False, reset=None):
    if dyadic:
        rr, nb = dyadic_ranges(rng, n_dim)
    else:
        rr = []
        for lo, hi in ranges:
            k = int(rng.integers(4))
            if rng.random() < 0.15:  # all digits matter
                rr.append((float(lo + 0.3 * (hi - lo) * rng.random()), float(hi - 0.3 * (hi - lo) * rng.random())))
            elif k == 0:
                rr.append((lo, hi))
            elif k == 1:
                rr.append((lo - 1.0, hi + 2.0))
            else:
                rr.append((float(np.round(lo + 0.3 * (hi - lo) * rng.random(), 2)),
                           float(np.round(hi - 0.3 * (hi - lo) * rng.random(), 2))))
        nb = [int(x) for x in rng.integers(1, {1: 60, 2: 12, 3: 6}[n_dim], size=n_dim)]
        if rng.random() < 0.12:  # many bins
            nb = [int(x) for x in rng.integers(2, {1: 1300, 2: 45, 3: 14}[n_dim], size=n_dim)]
    sec = {"min": [r[0] for r in rr], "max": [r[1] for r in rr], "bins": nb}
    if n_dim == 1:
        sec = {k: v[0] for k, v in sec.items()}
    st = pick(rng, [None, 1, 2, 3, 4, 5, 7, 10])
    if st:
        sec["stride"] = st
    if filename:
        sec["filename"] = filename
        if rng.random() < 0.6:
            sec["write-stride"] = pick(rng, [1, 2, 3, 5, 7, 10, 25, 100])
        f = pick(rng, FMTS)
        if f:
            sec["fmt"] = cfg_fmt(f)
    if reset or (reset is None and rng.random() < 0.3):
        k = int(rng.integers(1, 4)) if rng.random() < 0.8 else int(rng.integers(4, 8) if rng.random() < 0.7 else rng.integers(10, 30))
        sec["reset"] = [int(x) for x in rng.integers(1, n_steps + 3, size=k)]  # in any order
        if rng.random() < 0.5:
            sec["reset"].sort()
        if rng.random() < 0.15:
            sec["reset"].append(sec["reset"][0])
    return sec


def fes_section(rng, filename=None):
    sec = {"kt": float(np.round(rng.uniform(0.2, 3.0), 2))}
    st = pick(rng, [None, 1, 2, 3, 5, 7, 10, 20])
    if st:
        sec["stride"] = st
    if filename:
        sec["filename"] = filename
        if st and rng.random() < 0.7:
            sec["write-stride"] = pick(rng, [st, 2 * st, 5 * st, 1, 3, 10])
        f = pick(rng, FMTS)
        if f:
            sec["fmt"] = cfg_fmt(f)
    return sec


def strided(rng, sec, filename, fmts=FMTS):
    st = pick(rng, [None, 1, 1, 2, 3, 4, 5, 7, 10])
    if st:
        sec["stride"] = st
    if filename:
        sec["filename"] = filename
        if st and rng.random() < 0.7:
            sec["write-stride"] = st * pick(rng, [1, 2, 3, 4, 5, 10, 30])
        f = pick(rng, fmts)
        if f:
            sec["fmt"] = cfg_fmt(f)
    return sec


def states(rng, ranges, n_states, grid=None):
    """State options; with grid=(ranges, bins) borders often coincide with bin midpoints"""
    if grid is None:
        return gen.states_options(rng, ranges, n_states)
    rr, nb = grid
    opts = {}
    for i in range(n_states):
        lo, hi = [], []
        for (a, b), n in zip(rr, nb):
            mids = [a + (b - a) * (2 * k + 1) / (2 * n) for k in range(n)]
            x, y = sorted(int(v) for v in rng.integers(0, n, size=2))
            lo.append(mids[x] - pick(rng, [0.0, 0.0, 0.125]))
            hi.append(mids[y] + pick(rng, [0.0, 0.0, 0.125]))
        opts[f"state{i+1}-min"] = lo
        opts[f"state{i+1}-max"] = hi
    return opts


def n_states(rng, lo, hi):
    """Number of states, sometimes with more than one digit"""
    return int(rng.integers(lo, hi)) if rng.random() < 0.9 else int(pick(rng, [10, 11, 12, 14, 20, 33]))


def long_config(rng, sections, number=1):
    """Run of more than 2**16 time steps with sparse output (counters of every width overflow)"""
    n_steps = int(rng.integers(66600, 67200))
    cfg = {
        "ld": {"type": "overdamped", "timestep": 0.005, "n_steps": n_steps, "seed": int(rng.integers(10**6))},
        "potential": {"type": "polynomial", "n_dim": 1, "coeffs": [0.0, 0.1, 0.5], "min": -2.0, "max": 2.0,
                      "boundary-condition": "reflective"},
        "particles": {"number": number, "initial-distribution": "random-global", "seed": int(rng.integers(10**6))},
    }
    stride = int(pick(rng, [300, 777, 1000]))
    if "trajectories" in sections:
        cfg["trajectories"] = {"stride": stride, "write-stride": int(pick(rng, [5000, 7001]))}
        if rng.random() < 0.5 or "histogram" not in sections:
            cfg["trajectories"]["filename"] = "long"
    if "histogram" in sections:
        cfg["histogram"] = {"min": -2.0, "max": 2.0, "bins": 16, "stride": int(pick(rng, [1, 3])), "filename": "lh",
                            "write-stride": 20000}
    if "fes" in sections:
        cfg["fes"] = {"kt": 0.7, "stride": stride, "filename": "lf", "write-stride": 20 * stride}
    if "delta-f" in sections:
        cfg["delta-f"] = {**states(rng, None, 3, ([(-2.0, 2.0)], [8])), "stride": stride, "filename": "ld",
                          "write-stride": 7 * stride}
    if "particle-distribution" in sections:
        cfg["particle-distribution"] = {**gen.states_options(rng, [(-2.0, 2.0)], 3), "stride": stride,
                                        "filename": "lp", "write-stride": 7 * stride}
    return cfg


def state_list(sec):
    out = []
    i = 1
    while f"state{i}-min" in sec:
        out.append((np.atleast_1d(np.array(sec[f"state{i}-min"], dtype=float)),
                    np.atleast_1d(np.array(sec[f"state{i}-max"], dtype=float))))
        i += 1
    return out


def grid_of(sec):
    lo = np.atleast_1d(np.array(sec["min"], dtype=float))
    hi = np.atleast_1d(np.array(sec["max"], dtype=float))
    nb = np.atleast_1d(np.array(sec["bins"], dtype=int))
    return [(float(a), float(b)) for a, b in zip(lo, hi)], [int(n) for n in nb]


# --- expectations


def fmt_of(sec):
    f = sec.get("fmt")
    return f.replace("%%", "%") if f else "%14.9f"


def multiples(stride, n_steps):
    return list(range(stride, n_steps + 1, stride))


def same_text(mon, rows, want, fmt, what, /, **w):
    """Rows of text hold the wanted values, rounded in the number format"""
    want = np.asarray(want, dtype=float)
    if not mon.check(len(rows) == len(want) and all(len(r) == want.shape[1] for r in rows),
                     what + ": number of lines and columns", lines=len(rows), want_lines=len(want),
                     columns=sorted({len(r) for r in rows}), want_columns=want.shape[1] if want.ndim > 1 else None,
                     first=rows[:2], last=rows[-2:], **w):
        return False
    if not len(want):
        return True
    got = sim.table_values(rows)
    atol, rtol = sim.fmt_tol(fmt)
    if fmt.endswith("d"):
        atol, rtol = 1e-9, 0.0
    ok = mon.close(got, want, what, rtol=rtol + 1e-12, atol=atol + 1e-13, fmt=fmt, **w)
    bad = []
    for r in rows[:3] + rows[-1:]:
        for x in r:
            v = float(x)
            if np.isfinite(v) and (fmt % v).strip() != x:
                bad.append(x)
    return mon.check(not bad, what + ": number format", fmt=fmt, got=bad[:3], **w) and ok


def check_traj(mon, cfg, rec, n_dim, /, **w):
    """Trajectory files of a finished run"""
    sec = cfg["trajectories"]
    n_steps, dt = cfg["ld"]["n_steps"], cfg["ld"]["timestep"]
    n = rec.end_of_step[0].n
    base = sec.get("filename")
    stride = sec.get("stride", 1)
    steps = multiples(stride, n_steps)
    mom = bool(sec.get("momentum") or False)
    w = dict(w, n_steps=n_steps, stride=stride, write_stride=sec.get("write-stride"), momentum=mom)
    if not base:
        return
    names = sorted(f for f in os.listdir(".") if re.fullmatch(re.escape(base) + r"\.\d+", f))
    if not mon.check(names == sorted(f"{base}.{i}" for i in range(n)), "one trajectory file per walker",
                     got=names, n=n, **w):
        return
    for i in range(n):
        fields, consts, rows = sim.read_table(f"{base}.{i}")
        want = np.empty((len(steps), 1 + n_dim * (2 if mom else 1)))
        for r, k in enumerate(steps):
            s = rec.end_of_step[k]
            want[r, 0] = k * dt
            want[r, 1:1 + n_dim] = s.pos[i]
            if mom:
                want[r, 1 + n_dim:] = s.mom[i]
        mon.count("trajectory files")
        mon.count("trajectory lines", len(rows))
        ok = same_text(mon, rows, want, fmt_of(sec), "trajectory holds every stride-th step once",
                       walker=i, **w)
        good = (fields is not None and len(fields) == want.shape[1] and len(set(fields)) == len(fields)
                and fields[0] == "time" and all("pos" in f for f in fields[1:1 + n_dim])
                and all("mom" in f for f in fields[1 + n_dim:]))
        ok &= mon.check(good, "header of the trajectory names every column", fields=fields,
                        columns=want.shape[1], **w)
        if not ok:
            return


def histo_window(sec, traj, step, final=False):
    """First and last time step counted in the histogram after the given step"""
    W = traj.get("write-stride", 100)
    resets = [r for r in sec.get("reset", []) if r <= step]
    start = max(resets) if resets else 0
    end = step if final else (step // W) * W
    return start, end


def histo_bounds(rec, sec, start, end):
    rr, nb = grid_of(sec)
    stride = sec.get("stride", 1)
    pos = [rec.end_of_step[k].pos for k in range(start + 1, end + 1) if k % stride == 0]
    pos = np.concatenate(pos) if pos else np.empty((0, len(rr)))
    return ref.bin_counts(pos, rr, nb), len(pos)


def counts_ok(mon, data, bounds, what, /, **w):
    (low, high, total), n = bounds
    data = np.asarray(data, dtype=float)
    if not mon.check(data.shape == low.shape, what + ": shape", got=data.shape, want=low.shape, **w):
        return False
    return mon.check(np.all(low <= data) and np.all(data <= high) and data.sum() == total, what,
                     got_total=data.sum(), want_total=total, positions=n,
                     first_bad=np.argwhere((data < low) | (data > high))[:3].tolist(), **w)


def grid_file(mon, name, ranges, nb, fmt, what, /, **w):
    """Read a file of grid values: checks the points, returns the values (row-major)"""
    fields, consts, rows = sim.read_table(name)
    pts = ref.midpoints(ranges, nb)
    d = len(ranges)
    if not mon.check(len(rows) == len(pts) and all(len(r) == d + 1 for r in rows),
                     what + ": one line per bin", lines=len(rows), want=len(pts), file=name, **w):
        return None
    v = sim.table_values(rows)
    atol, rtol = sim.fmt_tol(fmt)
    if not mon.close(v[:, :d], pts, what + ": bin midpoints", rtol=rtol + 1e-12, atol=atol + 1e-12,
                     file=name, **w):
        return None
    mon.check(fields is not None and len(fields) == d + 1, what + ": header names every column",
              fields=fields, file=name, **w)
    return v[:, d].reshape(nb)


def series_files(mon, base, want_steps, what, /, **w):
    """Files base_<step> exactly at the wanted steps, and base itself"""
    got = sorted(int(f[len(base) + 1:]) for f in os.listdir(".")
                 if re.fullmatch(re.escape(base) + r"_\d+", f))
    return mon.check(got == list(want_steps) and os.path.exists(base), what + ": one file per write-stride and a final one",
                     got=got, want=list(want_steps), final=os.path.exists(base), **w)


def check_histo(mon, cfg, rec, n_dim, /, **w):
    sec, traj = cfg["histogram"], cfg["trajectories"]
    n_steps = cfg["ld"]["n_steps"]
    rr, nb = grid_of(sec)
    W = traj.get("write-stride", 100)
    w = dict(w, n_steps=n_steps, stride=sec.get("stride", 1), traj_write_stride=W,
             traj_filename=traj.get("filename"), reset=sec.get("reset"), ranges=rr, bins=nb)
    # data at every update and at the end
    for s in range(1, n_steps + 1):
        if s % W and s not in sec.get("reset", []):
            continue
        b = histo_bounds(rec, sec, *histo_window(sec, traj, s))
        mon.count("histogram states compared")
        mon.count("samples in compared histograms", b[1])
        if not counts_ok(mon, rec.histo_data[s], b, "histogram counts every sample exactly once", at_step=s, **w):
            return
    final = histo_bounds(rec, sec, *histo_window(sec, traj, n_steps, final=True))
    mon.count("histogram states compared")
    mon.count("samples in compared histograms", final[1])
    if not counts_ok(mon, rec.histo_data["final"], final, "final histogram counts every sample exactly once", **w):
        return
    base = sec.get("filename")
    if not base:
        return
    ws = sec.get("write-stride")
    steps = multiples(ws, n_steps) if ws else []
    w["write_stride"] = ws
    if not series_files(mon, base, steps, "histogram", **w):
        return
    atol, _ = sim.fmt_tol(fmt_of(sec))
    for s in steps + [None]:
        name = base if s is None else f"{base}_{s}"
        v = grid_file(mon, name, rr, nb, fmt_of(sec), "histogram file", **w)
        if v is None:
            return
        if s is None:
            b = final
        else:
            # written before a reset of the same step takes effect
            start = max([r for r in sec.get("reset", []) if r < s], default=0)
            b = histo_bounds(rec, sec, start, (s // W) * W)
        mon.count("histogram files")
        v = np.where(np.abs(v - np.round(v)) <= atol + 1e-5 * np.abs(v), np.round(v), v)
        if not counts_ok(mon, v, b, "histogram file holds the counts", file=name, **w):
            return


def fes_from_counts(c, kt):
    with np.errstate(divide="ignore"):
        f = -kt * np.log(c)
    if np.any(c > 0):
        f = f - f.min()
    return f


def check_fes(mon, cfg, rec, n_dim, /, **w):
    sec = cfg["fes"]
    n_steps, kt = cfg["ld"]["n_steps"], sec["kt"]
    rr, nb = grid_of(cfg["histogram"])
    stride = sec.get("stride")
    w = dict(w, n_steps=n_steps, stride=stride, write_stride=sec.get("write-stride"), kt=kt, bins=nb)
    current = fes_from_counts(np.zeros(nb), kt)
    at = {}
    for s in range(1, n_steps + 1):
        if stride and s % stride == 0:
            current = fes_from_counts(rec.histo_data[s], kt)
            mon.count("surfaces calculated")
            mon.count("surface values", current.size)
            mon.count("empty bins", int(np.isinf(current).sum()))
        at[s] = current
        if not mon.close(rec.fes_data[s], current, "surface is -kT ln(counts), aligned to zero", at_step=s,
                         rtol=1e-10, atol=1e-10 * kt, **w):
            return
        if not mon.check(np.array_equal(rec.histo_after_fes[s], rec.histo_data[s]),
                         "the histogram is not modified by the surface", at_step=s, **w):
            return
    final = fes_from_counts(rec.histo_data["final"], kt)
    mon.count("surfaces calculated")
    mon.count("surface values", final.size)
    if not mon.close(rec.fes_data["final"], final, "final surface is -kT ln(counts), aligned to zero",
                     rtol=1e-10, atol=1e-10 * kt, **w):
        return
    mon.check(np.array_equal(rec.histo_after_fes["final"], rec.histo_data["final"]),
              "the histogram is not modified by the surface", at_step="final", **w)
    base = sec.get("filename")
    if not base:
        return
    ws = sec.get("write-stride")
    steps = multiples(ws, n_steps) if ws else []
    if not series_files(mon, base, steps, "surface", **w):
        return
    atol, rtol = sim.fmt_tol(fmt_of(sec))
    for s in steps + [None]:
        name = base if s is None else f"{base}_{s}"
        v = grid_file(mon, name, rr, nb, fmt_of(sec), "surface file", **w)
        if v is None:
            return
        mon.count("surface files")
        if not mon.close(v, final if s is None else at[s], "surface file holds the latest values", file=name,
                         rtol=rtol + 1e-9, atol=atol + 1e-9 * kt, **w):
            return


def delta_f(f, kt, masks):
    with np.errstate(divide="ignore", invalid="ignore"):
        p = np.exp(-np.asarray(f, dtype=float).ravel() / kt)
        w = np.array([p[m].sum() for m in masks])
        return -kt * np.log(w[1:] / w[0])


def region_masks(sec, rr, nb, exact):
    """Masks of bin midpoints per state and whether membership is unambiguous"""
    pts = ref.midpoints(rr, nb)
    masks, clear = [], True
    for lo, hi in state_list(sec):
        masks.append(ref.inside(pts, lo, hi))
        d = np.minimum(np.abs(pts - lo), np.abs(pts - hi))
        near = d < 1e-9
        if exact:
            near &= d > 0
        if near.any():
            clear = False
    return masks, clear


def check_delta_f(mon, cfg, rec, n_dim, exact=False, **w):
    sec, kt = cfg["delta-f"], cfg["fes"]["kt"]
    n_steps, dt = cfg["ld"]["n_steps"], cfg["ld"]["timestep"]
    rr, nb = grid_of(cfg["histogram"])
    stride = sec.get("stride")
    masks, clear = region_masks(sec, rr, nb, exact)
    base = sec.get("filename")
    if not base:
        return
    w = dict(w, n_steps=n_steps, stride=stride, write_stride=sec.get("write-stride"), kt=kt, bins=nb,
             ranges=rr, states=state_list(sec))
    fields, consts, rows = sim.read_table(base)
    if stride:
        steps = multiples(stride, n_steps)
        want = np.array([[k * dt, *delta_f(rec.fes_data[k], kt, masks)] for k in steps]).reshape(len(steps), len(masks))
    else:
        want = np.array([[n_steps * dt, *delta_f(rec.fes_data["final"], kt, masks)]])
    mon.count("delta F files")
    mon.count("delta F lines", len(rows))
    mon.count("finite delta F values", int(np.isfinite(want[:, 1:]).sum()))
    ok = mon.check(fields is not None and len(fields) == len(masks) and len(set(fields)) == len(fields),
                   "header of delta F names every column", fields=fields, columns=len(masks), **w)
    if not clear:
        mon.count("delta F files with ambiguous bins (values not compared)")
        mon.check(len(rows) == len(want) and np.allclose(sim.table_values(rows)[:, 0] if rows else [], want[:, 0],
                  rtol=1e-4, atol=1e-4), "delta F has one line per stride", lines=len(rows), want=len(want), **w)
        return
    return ok and same_text(mon, rows, want, fmt_of(sec), "delta F of the current surface, once per stride", **w)


def check_pdist(mon, cfg, rec, n_dim, /, **w):
    sec = cfg["particle-distribution"]
    n_steps = cfg["ld"]["n_steps"]
    stride = sec.get("stride")
    st = state_list(sec)
    base = sec.get("filename")
    if not base:
        return
    w = dict(w, n_steps=n_steps, stride=stride, write_stride=sec.get("write-stride"), states=st)
    fields, consts, rows = sim.read_table(base)
    steps = multiples(stride, n_steps) if stride else [n_steps]
    want = np.array([[k, *(int(ref.inside(rec.end_of_step[k].pos, lo, hi).sum()) for lo, hi in st)]
                     for k in steps], dtype=float).reshape(len(steps), len(st) + 1)
    mon.count("distribution files")
    mon.count("distribution lines", len(rows))
    mon.count("walkers counted in states", int(want[:, 1:].sum()))
    onb = 0
    for k in steps:
        p = rec.end_of_step[k].pos
        onb += sum(int(np.any((p == lo) | (p == hi), axis=1).sum()) for lo, hi in st)
    mon.count("walkers exactly on a border", onb)
    ok = same_text(mon, rows, want, fmt_of(sec), "walkers per state, once per stride", **w)
    ok &= mon.check(fields is not None and len(fields) == len(st) + 1 and len(set(fields)) == len(fields),
                    "header of the distribution names every column", fields=fields, columns=len(st) + 1, **w)
    vals = [[float(x) for x in re.findall(r"(?<![\w.])-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf)", v)]
            for v in consts.values()]
    for lo, hi in st:
        flat = [float(x) for pair in zip(lo, hi) for x in pair]
        ok &= mon.check(any(np.allclose(v, flat, rtol=1e-9, atol=1e-12) for v in vals if len(v) == len(flat)),
                        "header of the distribution names the state ranges", consts=consts, want=flat, **w)
    return ok


CHECKERS = {"trajectories": check_traj, "histogram": check_histo, "fes": check_fes,
            "delta-f": check_delta_f, "particle-distribution": check_pdist}


def full_outputs(rng, cfg, n_dim, ranges, n_steps, prob=0.8, subdir=""):
    """Add output sections with files to a configuration"""
    def yes():
        return rng.random() < prob

    if "birth-death" in cfg and yes():
        cfg["birth-death"]["stats-filename"] = subdir + "bdstats"
        if yes():
            cfg["birth-death"]["stats-stride"] = pick(rng, [1, 2, 3, 5, 10])
    if yes():
        cfg["trajectories"] = traj_section(rng, subdir + "traj" if yes() else None)
        if yes():
            cfg["histogram"] = histo_section(rng, n_dim, ranges, n_steps, subdir + "histo" if yes() else None)
            if yes():
                cfg["fes"] = fes_section(rng, subdir + "fes" if yes() else None)
                if yes():
                    cfg["delta-f"] = strided(rng, states(rng, ranges, n_states(rng, 2, 4)), subdir + "deltaf")
    if yes():
        cfg["particle-distribution"] = strided(rng, states(rng, ranges, n_states(rng, 1, 4)), subdir + "pdist")
    return cfg


def output_files(cfg, n):
    """All data files a completed run writes"""
    n_steps = cfg["ld"]["n_steps"]
    out = []
    bd = cfg.get("birth-death", {})
    if bd.get("stats-filename"):
        out.append(bd["stats-filename"])
    t = cfg.get("trajectories", {})
    if t.get("filename"):
        out += [f"{t['filename']}.{i}" for i in range(n)]
    for sec in ("histogram", "fes"):
        s = cfg.get(sec, {})
        if s.get("filename"):
            out.append(s["filename"])
            if s.get("write-stride"):
                out += [f"{s['filename']}_{k}" for k in multiples(s["write-stride"], n_steps)]
    for sec in ("delta-f", "particle-distribution"):
        if cfg.get(sec, {}).get("filename"):
            out.append(cfg[sec]["filename"])
    return out


def read_tree(d="."):
    """Content of all files below a directory"""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out
