"""Exact outcome distribution of one birth-death step of a small ensemble

Written from the documented algorithm: walkers in random order, event probability
1-exp(-|rate|*dt*factor), partner uniform among the others. An outcome is the event list
[(duplicated, killed), ...] together with the number of death attempts and successes.
"""
import itertools
import math
from collections import defaultdict

import numpy as np


def outcomes(n, betas, dtf, recalc):
    """{(events, death attempts, death successes): probability}

    :param betas: function of the tuple of source walkers (who sits in each slot) -> rates
    """
    start = tuple(range(n))
    dist = defaultdict(float)
    w_perm = 1.0 / math.factorial(n)

    def prob(b):
        return -math.expm1(-abs(b) * dtf)

    def walk(order, k, slots, killed, events, att, succ, weight, b, b0):
        if weight < 1e-15:
            dist["rest"] += weight
            return
        if k == n:
            dist[(tuple(events), att, succ)] += weight
            return
        i = order[k]
        if not recalc and i in killed:
            walk(order, k + 1, slots, killed, events, att, succ, weight, b, b0)
            return
        cur = b if recalc else b0
        a = att + (1 if (recalc and cur[i] > 0) else 0)
        p = prob(cur[i])
        walk(order, k + 1, slots, killed, events, a, succ, weight * (1 - p), b, b0)
        if p <= 0:
            return
        for j in range(n):
            if j == i:
                continue
            e = (j, i) if cur[i] > 0 else (i, j)
            new = list(slots)
            new[e[1]] = new[e[0]]
            new = tuple(new)
            walk(order, k + 1, new, killed | {e[1]}, events + [e], a,
                 succ + (1 if cur[i] > 0 else 0), weight * p / (n - 1),
                 betas(new) if recalc else b, b0)

    b0 = betas(start)
    base = 0 if recalc else int(sum(x > 0 for x in b0))
    for order in itertools.permutations(range(n)):
        walk(order, 0, start, frozenset(), [], base, 0, w_perm, b0, b0)
    return dict(dist)


def chi2_sf(x, k):
    from scipy.stats import chi2

    return float(chi2.sf(x, k))


def compare(observed, dist, total, min_expected=8.0):
    """p-value of observed counts under the distribution (rare outcomes merged)

    :return (p value, impossible outcomes, largest deviations)
    """
    impossible = [o for o in observed if o not in dist]
    chi, dof = 0.0, -1
    rest_e = rest_o = 0.0
    dev = []
    for o, p in dist.items():
        e = p * total
        obs = observed.get(o, 0)
        if e < min_expected:
            rest_e += e
            rest_o += obs
        else:
            c = (obs - e) ** 2 / e
            chi += c
            dof += 1
            dev.append((c, o, obs, round(e, 2)))
    if rest_e > min_expected:
        chi += (rest_o - rest_e) ** 2 / rest_e
        dof += 1
    elif rest_o > rest_e + 12 * math.sqrt(rest_e + 1) + 12:
        impossible.append(("too many rare outcomes", rest_o, rest_e))
    dev.sort(key=lambda t: -t[0])
    return (chi2_sf(chi, dof) if dof > 0 else 1.0), impossible, dev[:3]


def explain(events, beta_of_stage, replaced_cannot_trigger=False):
    """Can every event be attributed to a distinct trigger with the right sign of its rate?

    :param beta_of_stage: list of rate arrays, one per event (before that event)
    :param replaced_cannot_trigger: a walker replaced earlier in the step triggers nothing
    """
    cand = []
    replaced = set()
    for (dup, kill), b in zip(events, beta_of_stage):
        c = []
        if b[kill] > -1e-9:
            c.append(kill)
        if b[dup] < 1e-9:
            c.append(dup)
        if replaced_cannot_trigger:
            c = [i for i in c if i not in replaced]
            replaced.add(kill)
        cand.append(c)
    match = {}

    def augment(e, seen):
        for t in cand[e]:
            if t in seen:
                continue
            seen.add(t)
            if t not in match or augment(match[t], seen):
                match[t] = e
                return True
        return False

    return all(augment(e, set()) for e in range(len(events))), cand
