"""Monitor object that collects what was observed and what was violated"""
import hashlib
import json
import os
import traceback

import numpy as np


class Inconclusive(Exception):
    """The monitor could not observe what it needs (neither held nor violated)"""


def jsonable(x, depth=0):
    """Best effort conversion of a witness to plain JSON"""
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        x = list(x)
        out = [jsonable(v, depth + 1) for v in x[:60]]
        if len(x) > 60:
            out.append(f"... {len(x)} items")
        return out
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x if not isinstance(x, str) else x[:3000]
    return repr(x)[:300]


def sig_hash(x):
    return hashlib.sha1(json.dumps(jsonable(x), sort_keys=True).encode()).hexdigest()[:16]


class Mon:
    """Collects events, checks, signatures, pooled statistics and violations"""

    MAX_VIOL = 6

    def __init__(self, prop, case=None):
        self.prop = prop
        self.case = case
        self.counters = {}
        self.checks = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.n_violations = 0
        self.findings = {}
        self.inconclusive = []
        self.pools = {}

    # --- observations
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def sig(self, *parts):
        self.sigs.add(sig_hash(parts))

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def pool(self, name, values):
        """Add values to a pooled statistic (n, sum, sum of squares, sum^4, max |x|)"""
        v = np.asarray(values, dtype=float).ravel()
        if v.size == 0:
            return
        p = self.pools.setdefault(name, [0, 0.0, 0.0, 0.0, 0.0])
        p[0] += v.size
        p[1] += float(v.sum())
        p[2] += float((v**2).sum())
        p[3] += float((v**4).sum())
        p[4] = max(p[4], float(np.abs(v).max()))

    # --- verdicts
    def check(self, ok, what, /, **witness):
        self.checks[what] = self.checks.get(what, 0) + 1
        if not bool(ok):
            self.violate(what, **witness)
            return False
        return True

    def violate(self, what, /, **witness):
        self.n_violations += 1
        if len(self.violations) < self.MAX_VIOL:
            self.violations.append(
                dict(what=what, witness=jsonable(witness), case=jsonable(self.case))
            )

    def close(self, got, want, what, /, rtol=1e-9, atol=1e-12, **witness):
        """got and want agree elementwise (also in shape, nan and inf)"""
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            return self.check(False, what, got_shape=g.shape, want_shape=w.shape, **witness)
        with np.errstate(invalid="ignore"):
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if ok.all():
            self.checks[what] = self.checks.get(what, 0) + 1
            return True
        idx = np.argwhere(~ok)[0] if ok.ndim else ()
        return self.check(
            False,
            what,
            index=idx,
            got=g[tuple(idx)] if ok.ndim else g,
            want=w[tuple(idx)] if ok.ndim else w,
            n_bad=int((~ok).sum()),
            **witness,
        )

    def finding(self, fid, what):
        self.findings[fid] = what

    def undecided(self, reason):
        self.inconclusive.append(str(reason)[:500])

    # --- transport
    def dump(self):
        d = dict(self.__dict__)
        d["sigs"] = sorted(self.sigs)
        d["case"] = None
        return d

    def absorb(self, d):
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in d["checks"].items():
            self.checks[k] = self.checks.get(k, 0) + v
        self.sigs.update(d["sigs"])
        if d["samples"] and len(self.samples) < 6:
            self.samples.append(d["samples"][0])
        self.n_violations += d["n_violations"]
        self.violations.extend(d["violations"])
        self.findings.update(d["findings"])
        self.inconclusive.extend(d["inconclusive"])
        for k, v in d["pools"].items():
            p = self.pools.setdefault(k, [0, 0.0, 0.0, 0.0, 0.0])
            for i in range(4):
                p[i] += v[i]
            p[4] = max(p[4], v[4])


def exception_verdict(mon, exc, verif_dir):
    """Turn an exception that escaped a case into a verdict"""
    tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
    text = "".join(tb)[-2500:]
    if isinstance(exc, Inconclusive):
        mon.undecided(str(exc))
        return
    if isinstance(exc, (ImportError, MemoryError)):
        mon.undecided(text)
        return
    frames = traceback.extract_tb(exc.__traceback__)
    if frames and frames[-1].filename.endswith("/vlib/ref.py"):
        mon.undecided(text)  # the reference itself could not be evaluated
        return
    if isinstance(exc, AttributeError):
        if frames and frames[-1].filename.startswith(verif_dir) and (
            "module 'bdld" in str(exc) or "type object" in str(exc)
        ):
            mon.undecided(text)  # the interface the monitor relies on is gone
            return
    mon.violate("unexpected exception in a legal workload", traceback=text)


def z_mean(p):
    """z value of the mean of pooled values that should be iid N(0,1)"""
    return p[1] / np.sqrt(p[0])


def z_var(p):
    """z value of the mean square of pooled values that should be iid N(0,1)"""
    return (p[2] / p[0] - 1) / np.sqrt(2.0 / p[0])


def z_kurt(p):
    """z value of the fourth moment (3) of pooled values that should be iid N(0,1)"""
    return (p[3] / p[0] - 3) / np.sqrt(96.0 / p[0])


def check_normal_pools(mon, prefix, zmax=7.0, min_n=500):
    """Pools whose name starts with prefix must be compatible with iid N(0,1)"""
    n_pools = 0
    for name, p in sorted(mon.pools.items()):
        if not name.startswith(prefix) or p[0] < min_n:
            continue
        n_pools += 1
        mon.check(abs(z_mean(p)) < zmax, "noise mean is zero", pool=name, n=p[0], z=z_mean(p))
        mon.check(abs(z_var(p)) < zmax, "noise variance is one", pool=name, n=p[0],
                  var=p[2] / p[0], z=z_var(p))
        mon.check(p[4] < 8.0, "noise has no outliers", pool=name, max=p[4])
        if p[0] > 20000:
            mon.check(abs(z_kurt(p)) < 9.0, "noise fourth moment is three", pool=name,
                      m4=p[3] / p[0], z=z_kurt(p))
    return n_pools


def check_product_pools(mon, prefix, zmax=7.0, min_n=500):
    """Pools of products of independent N(0,1) values must average to zero"""
    n_pools = 0
    for name, p in sorted(mon.pools.items()):
        if not name.startswith(prefix) or p[0] < min_n:
            continue
        n_pools += 1
        z = p[1] / np.sqrt(max(p[2], 1e-300))
        mon.check(abs(z) < zmax, "noise values are uncorrelated", pool=name, n=p[0], z=z)
    return n_pools


# probabilities of |n| > t for a normal number n
NORMAL_TAILS = [(0.5, 0.6170750774519738), (1.0, 0.31731050786291415), (2.0, 0.04550026389635842),
                (3.0, 0.002699796063260189), (3.5, 0.00046525815807105), (4.03, 5.577685288112788e-05),
                (4.5, 6.795346249460121e-06)]


def check_normal_sample(mon, values, /, **w):
    """Shape of the distribution of a large sample: fourth moment, tails on both sides, symmetry"""
    v = np.asarray(values, dtype=float).ravel()
    n = v.size
    mon.count("noise values in judged distributions", n)
    m2 = float(np.mean(v**2))
    z = (float(np.mean(v**4)) / m2**2 - 3) / np.sqrt(24 / n)
    ok = mon.check(abs(z) < 7.5, "noise has the fourth moment of a normal distribution", z=z, n=n, **w)
    z = float(np.mean(v**3)) / np.sqrt(15 / n)
    ok &= mon.check(abs(z) < 7, "noise is symmetric", z=z, n=n, **w)
    for t, p in NORMAL_TAILS:
        for side, k, q in (("both", np.sum(np.abs(v) > t), p), ("upper", np.sum(v > t), p / 2),
                           ("lower", np.sum(v < -t), p / 2)):
            e = n * q
            # Chernoff bound of the binomial distribution (Poisson limit), valid for small numbers, too
            dev = float(k * np.log(k / e) - k + e) if k else e
            ok &= mon.check(dev < 20, "noise has the tails of a normal distribution", threshold=t,
                            side=side, found=int(k), expected=e, n=n, **w)
    return ok


def check_no_repeats(mon, values, eps, what="noise values are not used twice", /, **w):
    """Independent continuous values coincide within eps only by (rare) accident"""
    v = np.sort(np.asarray(values, dtype=float).ravel())
    n = int(np.sum(np.diff(v) < eps))
    expected = 0.2821 * v.size**2 * eps  # normal density: integral of its square
    mon.count("noise values searched for repetitions", v.size)
    return mon.check(n <= 20 + 10 * expected, what, repeated=n, of=v.size, expected=expected, **w)
