"""Run all cases of one property in forked processes and decide"""
import argparse
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import boot, core  # noqa: E402


def run_one(module, prop, case, scratch):
    """Run a single case in this (forked) process and return the monitor dump"""
    import numpy as np

    mon = core.Mon(prop, case)
    wd = tempfile.mkdtemp(prefix="case", dir=scratch)
    os.chdir(wd)
    random.seed(case.get("seed", 0))
    np.random.seed(case.get("seed", 0) % 2**32)
    sys.stdin = open(os.devnull)
    try:
        module.run_case(case, mon)
    except BaseException as e:  # noqa: B902 - everything becomes a verdict
        core.exception_verdict(mon, e, VERIF)
    finally:
        os.chdir("/")
        shutil.rmtree(wd, ignore_errors=True)
    return mon.dump()


def child(module, prop, case, scratch, wfd):
    os.setpgid(0, 0)
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        data = pickle.dumps(run_one(module, prop, case, scratch))
    except BaseException:
        mon = core.Mon(prop, case)
        mon.undecided("harness: " + traceback.format_exc()[-1500:])
        data = pickle.dumps(mon.dump())
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def schedule(module, prop, cases, total, scratch, jobs, budget, case_timeout, keep_going):
    """Fork one process per case, at most jobs at a time"""
    t0 = time.time()
    pending = list(enumerate(cases))
    running = {}
    done = 0
    skipped = 0
    decided = None
    while pending or running:
        while pending and len(running) < jobs:
            if time.time() - t0 > budget or (total.n_violations and not keep_going):
                skipped = len(pending)
                pending = []
                break
            i, case = pending.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                child(module, prop, case, scratch, wfd)
            os.close(wfd)
            running[rfd] = [pid, case, time.time(), []]
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[fd][3].append(chunk)
                continue
            pid, case, _, chunks = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            data = b"".join(chunks)
            if data:
                total.absorb(pickle.loads(data))
                done += 1
            else:
                total.undecided(f"case process died: {str(case)[:300]}")
        now = time.time()
        if total.n_violations and not keep_going and decided is None:
            decided = now
        for fd, (pid, case, start, _) in list(running.items()):
            late = decided is not None and now - decided > 20  # the verdict is known
            if late or now - start > case_timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                running.pop(fd)
                if not late:
                    total.undecided(f"case timed out after {case_timeout} s: {str(case)[:300]}")
    return done, skipped


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    prop = args.prop.upper()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    helpers = boot.install()
    evdir = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence")))
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    total = core.Mon(prop)
    scratch = tempfile.mkdtemp(prefix=f"bdld_{prop}_")
    done = skipped = 0
    cases = []
    module = None
    try:
        try:
            module = importlib.import_module(f"props.{prop.lower()}")
        except Exception as e:  # the code under test cannot even be imported
            core.exception_verdict(total, e, VERIF)
        if module is not None:
            if args.replay:
                cases = [json.load(open(args.replay))["case"]]
            else:
                cases = list(module.cases(tier, seed))
            budget = args.budget or (420 if tier == "quick" else 780)
            done, skipped = schedule(
                module, prop, cases, total, scratch, args.jobs, budget,
                getattr(module, "CASE_TIMEOUT", 300 if tier == "quick" else 700),
                args.keep_going,
            )
            if not args.replay and hasattr(module, "finalize") and not (
                total.n_violations and not args.keep_going
            ):
                try:
                    module.finalize(total, tier)
                except Exception as e:
                    core.exception_verdict(total, e, VERIF)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = {
        (k["property"], k["id"]): k["what"]
        for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    }
    for fid in list(total.findings):
        if (prop, fid) not in known:
            total.violate("unlisted finding " + fid, what=total.findings[fid])
        else:
            print(f"KNOWN-FINDING: property={prop} {known[(prop, fid)]}")

    # the deciding monitors must have been reached
    required = getattr(module, "REQUIRED", {}) if module else {}
    if not args.replay and not total.n_violations:
        for name, minimum in required.items():
            got = total.counters.get(name, 0) + total.checks.get(name, 0)
            if got < minimum:
                total.undecided(f"monitor '{name}' observed only {got} (< {minimum}) events")

    wall = time.time() - t0
    replay_path = None
    if total.n_violations:
        v = total.violations[0]
        replay_path = os.path.join(evdir, "replay", f"{prop}_{tier}_{seed}.json")
        with open(replay_path, "w") as f:
            json.dump(
                dict(property=prop, seed=seed, tier=tier, case=v["case"], what=v["what"],
                     witness=v["witness"], others=total.violations[1:]), f, indent=1)
    if not args.replay:
        evidence = dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=int(total.counters.get("executions", done)),
                distinct_nontrivial=len(total.sigs),
                rule=getattr(module, "RULE", ""),
                samples=total.samples[:6] or [jsonable_case(c) for c in cases[:2]],
                cases_run=done, cases_skipped_by_budget=skipped,
                events_observed=dict(sorted(total.counters.items())),
                monitor_evaluations=dict(sorted(total.checks.items())),
                statistics={
                    k: dict(n=p[0], mean=p[1] / p[0], mean_square=p[2] / p[0], max_abs=p[4])
                    for k, p in sorted(total.pools.items())[:40]
                },
                inconclusive=total.inconclusive[:20],
                known_findings_seen=sorted(total.findings),
                helpers_from=helpers,
            ),
            assumptions=getattr(module, "ASSUMPTIONS", []) if module else [],
            wall_s=round(wall, 2),
            violations=total.n_violations,
        )
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)

    n_checks = sum(total.checks.values())
    print(f"{prop} {tier} seed={seed}: {done} cases ({skipped} skipped), "
          f"{sum(total.counters.values())} events, {n_checks} monitor evaluations, "
          f"{len(total.sigs)} distinct, {wall:.1f} s")
    if total.n_violations:
        for v in total.violations[:2]:
            print("  violated:", v["what"], short(v["witness"]))
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    if total.inconclusive:
        for reason in total.inconclusive[:5]:
            print("  inconclusive:", reason)
        return 2
    return 0


def short(w):
    if "traceback" in w:
        return "\n" + w["traceback"][-700:]
    return json.dumps(w)[:1200]


def jsonable_case(c):
    return core.jsonable(c)


if __name__ == "__main__":
    sys.exit(main())
