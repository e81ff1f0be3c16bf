"""C16: no output is lost: existing files are kept, written data survives crashes"""
import builtins
import copy
import os
import re
import signal
import time

import numpy as np

from props import c15
from vlib import core, gen, outputs, sim

RULE = ("reruns: per (sections, number of runs, pre-existing names); interruptions: per (kind, action, "
        "phase, sections)")
REQUIRED = {
    "outputs that existed as links": 3,
    "runs over existing files": 100,
    "runs of more than 1000 steps over existing files": 4,
    "existing files found as backup": 500,
    "bystander files checked": 500,
    "interrupted runs": 150,
    "killed at an action": 80,
    "killed at a file operation": 40,
    "interrupted by exception": 20,
    "append files judged after interruption": 300,
    "lines required after interruption": 500,
}
ASSUMPTIONS = [
    "crashes are kills of the process (SIGKILL) and exceptions, not power failures",
    "only data files are covered, plots are overwritten",
]


def cases(tier, seed):
    mul = 1 if tier == "quick" else 14
    return ([dict(mode="rerun", seed=seed * 100537 + i) for i in range(16 * mul)]
            + [dict(mode="longrerun", seed=seed * 100523 + i) for i in range(4 * mul)]
            + [dict(mode="kill", seed=seed * 100547 + i) for i in range(24 * mul)]
            + [dict(mode="fileop", seed=seed * 100549 + i) for i in range(12 * mul)]
            + [dict(mode="timed", seed=seed * 100559 + i) for i in range(4 * mul)])


def split(path):
    d, f = os.path.split(path)
    return d, f


def backups_of(files, name):
    d, f = split(name)
    pat = re.compile(re.escape(os.path.join(d, "bck.")) + r"\d+\." + re.escape(f))
    return [k for k in files if pat.fullmatch(k)]


def bystanders(rng, names):
    """Files the run must not touch, with names close to those it uses"""
    out = {}
    for k in range(int(rng.integers(4, 12))):
        base = str(rng.choice(names)) if names else "traj"
        d, f = split(base)
        name = str(rng.choice([f + ".99", f + "_1000000", "x" + f, f + ".bak", "bck." + f, f + "~", "notes.txt", "#" + f,
                               f + ".tmp", f + ".new", f + ".old", f + ".part", "." + f + ".swp", "tmp." + f, f + ".npy"]))
        out[os.path.join(d, name)] = rng.bytes(int(rng.integers(0, 60)))
    return out


def put(files):
    for name, data in files.items():
        if split(name)[0]:
            os.makedirs(split(name)[0], exist_ok=True)
        with open(name, "wb") as f:
            f.write(data)


def judge_kept(mon, before, after, written, own, **w):
    """Compare directory contents around a run that writes the given names"""
    used = set()
    for name, data in before.items():
        if name in own:
            continue
        if name in written:
            # found under a backup name that did not exist before (or untouched)
            new = [b for b in backups_of(after, name) if b not in before and b not in used]
            hit = [b for b in new if after[b] == data]
            if hit:
                used.add(hit[0])
                mon.count("existing files found as backup")
            ok = bool(hit) or (w.get("interrupted") and after.get(name) == data)
            if not mon.check(ok, "existing file is kept as numbered backup", file=name, new_backups=new,
                             still=after.get(name, b"")[:80], content=data[:80], **w):
                return False
        else:
            mon.count("bystander files checked")
            if not mon.check(after.get(name) == data, "no other file is touched", file=name,
                             exists=name in after, **w):
                return False
    allowed = set(before) | set(written) | own | used
    extra = [f for f in after if f not in allowed]
    return mon.check(not extra, "no files other than outputs and backups appear", files=extra[:5], **w)


def make(rng, bd=None):
    cfg, n_dim, ranges, n_steps = c15.config(rng, int(rng.integers(6, 45)), bd=bd)
    sub = "out/" if rng.random() < 0.3 else ""
    outputs.full_outputs(rng, cfg, n_dim, ranges, n_steps, prob=0.85, subdir=sub)
    if not any(k in cfg for k in ("trajectories", "particle-distribution")):
        cfg["trajectories"] = outputs.traj_section(rng, sub + "traj")
    return cfg, n_dim, sub


def prepare(cfg, n_dim, sub):
    if sub:
        os.makedirs(sub, exist_ok=True)
    if n_dim > 1 and "coeffs-file" in cfg["potential"]:
        gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if n_dim == 2 else gen.coeffs3d())
    sim.write_input(cfg)


OWN = set()  # input and coefficient file are compared like bystanders


def run_rerun(rng, mon):
    for rep in range(3):
        cfg, n_dim, sub = make(rng)
        with sim.fresh_dir():
            prepare(cfg, n_dim, sub)
            names = outputs.output_files(cfg, cfg["particles"]["number"])
            pre = bystanders(rng, names)
            for n in names:  # some names exist already, some with a chain of backups with gaps
                if rng.random() < 0.5:
                    pre[n] = rng.bytes(int(rng.integers(0, 50)))
                d, f = split(n)
                for k in range(4):
                    if rng.random() < 0.2:
                        pre[os.path.join(d, f"bck.{k}.{f}")] = rng.bytes(20)
            put(pre)
            if rng.random() < 0.5 and names:  # a link to data elsewhere
                n = names[int(rng.integers(len(names)))]
                if not os.path.lexists(n):
                    d = split(n)[0]
                    put({os.path.join(d, "elsewhere"): b"precious data\n"})
                    os.symlink("elsewhere", n)
                    mon.count("outputs that existed as links")
            for k in range(int(rng.integers(2, 5))):
                if k:
                    cfg = copy.deepcopy(cfg)
                    cfg["ld"]["seed"] = int(rng.integers(10**6))
                    cfg["ld"]["n_steps"] = int(rng.integers(3, 40))
                    if "reset" in cfg.get("histogram", {}):
                        del cfg["histogram"]["reset"]
                    sim.write_input(cfg)
                names = outputs.output_files(cfg, cfg["particles"]["number"])
                before = outputs.read_tree()
                res = sim.must_run(mon, cfg)
                if res is None:
                    return
                after = outputs.read_tree()
                mon.count("runs over existing files")
                mon.sig("rerun", sorted(cfg), k, sum(n in before for n in names))
                if not mon.check(all(n in after for n in names), "all outputs are written",
                                 missing=[n for n in names if n not in after][:4]):
                    return
                if not judge_kept(mon, before, after, set(names), OWN, run=k, interrupted=False):
                    return
    mon.sample(dict(files=sorted(after)[:12], sections=sorted(cfg)))


def run_long_rerun(rng, mon):
    """Outputs named after steps with four and five digits"""
    n_steps = int(outputs.pick(rng, [1200, 2000, 10000]))
    ws = int(outputs.pick(rng, [n_steps // 2, n_steps // 4]))
    cfg, n_dim, ranges, _ = c15.config(rng, n_steps, bd=False)
    cfg["particles"]["number"] = 2
    for k in [k for k in cfg["particles"] if k.startswith(("pos", "fractions"))]:
        del cfg["particles"][k]
    cfg["particles"]["initial-distribution"] = "random-global"
    cfg["trajectories"] = {"stride": ws // 10, "write-stride": ws}
    cfg["histogram"] = outputs.histo_section(rng, n_dim, ranges, n_steps, "hist")
    cfg["histogram"].update({"stride": ws // 10, "write-stride": ws})
    cfg["histogram"].pop("reset", None)
    if rng.random() < 0.7:
        cfg["fes"] = {"kt": 1.0, "filename": "fes", "stride": ws, "write-stride": ws}
    with sim.fresh_dir():
        prepare(cfg, n_dim, "")
        names = outputs.output_files(cfg, 2)
        put({n: rng.bytes(30) for n in names if rng.random() < 0.5})
        for k in range(2):
            before = outputs.read_tree()
            if sim.must_run(mon, cfg) is None:
                return
            after = outputs.read_tree()
            mon.count("runs of more than 1000 steps over existing files")
            mon.sig("long rerun", sorted(cfg), k, n_steps, ws)
            if not mon.check(all(n in after for n in names), "all outputs are written",
                             missing=[n for n in names if n not in after][:4]):
                return
            if not judge_kept(mon, before, after, set(names), OWN, run=k, interrupted=False):
                return


def in_child(fn):
    """Run fn in a forked process; returns the wait status"""
    pid = os.fork()
    if pid == 0:
        try:
            fn()
        except BaseException:
            os._exit(7)
        os._exit(0)
    return os.waitpid(pid, 0)[1]


def intervals(cfg):
    """{file kind: (action, write interval)} of the files that are appended to"""
    out = {}
    bd = cfg.get("birth-death", {})
    if bd.get("stats-filename"):
        out[bd["stats-filename"]] = ("birth-death", bd.get("stats-stride"))
    t = cfg.get("trajectories", {})
    if t.get("filename"):
        for i in range(cfg["particles"]["number"]):
            out[f"{t['filename']}.{i}"] = ("trajectories", t.get("write-stride", 100))
    for sec in ("delta-f", "particle-distribution"):
        s = cfg.get(sec, {})
        if s.get("filename"):
            st = s.get("stride")
            out[s["filename"]] = (sec, (s.get("write-stride") or 100 * st) if st else None)
    return out


def line_stride(cfg, action):
    if action == "birth-death":
        return cfg["birth-death"].get("stats-stride")
    if action == "trajectories":
        return cfg["trajectories"].get("stride", 1)
    return cfg[action].get("stride")


def judge_append(mon, cfg, ref_files, files, progress, **w):
    """Append files after an interruption

    :param progress: {action: (last completed step, final_run completed)} or None if unknown
    """
    for name, (action, interval) in intervals(cfg).items():
        full = ref_files[name]
        got = files.get(name)
        mon.count("append files judged after interruption")
        if not mon.check(got is None or full.startswith(got), "file is a prefix of that of the complete run",
                         file=name, length=None if got is None else len(got), full_length=len(full),
                         tail=str((got or b"")[-120:]), **w):
            return False
        if progress is None:
            continue
        last, final = progress.get(action, (0, False))
        body = [l for l in (got or b"").split(b"\n")[:-1] if not l.startswith(b"#")]
        total = [l for l in full.split(b"\n")[:-1] if not l.startswith(b"#")]
        stride = line_stride(cfg, action)
        if final:
            need = len(total)
        elif interval and stride:
            need = ((last // interval) * interval) // stride
        else:
            need = 0
        mon.count("lines required after interruption", need)
        if not mon.check(len(body) >= need, "everything up to the last write interval is in the file", file=name,
                         lines=len(body), need=need, last_step=last, interval=interval, **w):
            return False
        if not mon.check(got is None or got == b"" or got.endswith(b"\n"), "no half-written lines", file=name,
                         tail=str(got[-80:]), **w):
            return False
    return True


def reference(mon, cfg, n_dim, sub):
    with sim.fresh_dir():
        prepare(cfg, n_dim, sub)
        res = sim.must_run(mon, cfg)
        return res, outputs.read_tree()


def run_kill(rng, mon):
    for rep in range(2):
        cfg, n_dim, sub = make(rng)
        res, ref_files = reference(mon, cfg, n_dim, sub)
        if res is None:
            return
        events = res.rec.events
        names = outputs.output_files(cfg, cfg["particles"]["number"])
        points = sorted(set(int(x) for x in rng.integers(0, len(events), size=4)) | {len(events) - 1})
        for j in points:
            how = "exception" if rng.random() < 0.3 else "kill"
            with sim.fresh_dir():
                prepare(cfg, n_dim, sub)
                pre = bystanders(rng, names)
                pre.update({n: rng.bytes(30) for n in names if rng.random() < 0.3})
                put(pre)
                before = outputs.read_tree()
                seen = [0]

                def on_event(action, method, step):
                    if seen[0] == j:
                        if how == "kill":
                            os.kill(os.getpid(), signal.SIGKILL)
                        raise KeyboardInterrupt
                    seen[0] += 1

                status = in_child(lambda: sim.run_main(cfg, on_event=on_event))
                if how == "kill" and not (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL):
                    raise core.Inconclusive(f"injected kill did not happen: status {status}")
                if how == "exception" and status == 0:
                    raise core.Inconclusive("injected exception did not happen")
                after = outputs.read_tree()
            progress = {}
            for action, method, step in events[:j]:
                last, fin = progress.get(action, (0, False))
                progress[action] = (step, fin) if method == "run" else (last, True)
            mon.count("interrupted runs")
            mon.count("killed at an action" if how == "kill" else "interrupted by exception")
            w = dict(how=how, at=events[j], interrupted=True)
            mon.sig("kill", how, events[j][0], events[j][1], sorted(cfg))
            if not judge_append(mon, cfg, ref_files, after, progress, **w):
                return
            if not judge_kept(mon, before, after, set(names), OWN, **w):
                return
    mon.sample(dict(killed_at=events[j], sections=sorted(cfg), files=sorted(after)[:8]))


def run_fileop(rng, mon):
    """Kill before the n-th file operation of the run"""
    for rep in range(2):
        cfg, n_dim, sub = make(rng)
        res, ref_files = reference(mon, cfg, n_dim, sub)
        if res is None:
            return
        names = outputs.output_files(cfg, cfg["particles"]["number"])

        def hooked(limit, counter):
            def wrap(fn):
                def inner(*a, **k):
                    counter[0] += 1
                    if counter[0] == limit:
                        os.kill(os.getpid(), signal.SIGKILL)
                    return fn(*a, **k)
                return inner

            builtins.open = wrap(builtins.open)
            for n in ("rename", "replace", "remove", "unlink"):
                setattr(os, n, wrap(getattr(os, n)))

        for k in range(3):
            limit = int(rng.integers(1, 12 + 4 * len(names)))
            with sim.fresh_dir():
                prepare(cfg, n_dim, sub)
                pre = bystanders(rng, names)
                pre.update({n: rng.bytes(30) for n in names if rng.random() < 0.6})
                put(pre)
                before = outputs.read_tree()

                def body():
                    hooked(limit, [0])
                    sim.run_main(cfg, record=False)

                status = in_child(body)
                after = outputs.read_tree()
            if not os.WIFSIGNALED(status):
                mon.count("runs that ended before the operation")
                continue
            mon.count("interrupted runs")
            mon.count("killed at a file operation")
            w = dict(how="file operation", number=limit, interrupted=True)
            mon.sig("fileop", limit // 4, sorted(cfg))
            # files the run had not touched yet are not judged
            view = {k2: v for k2, v in after.items() if not (k2 in before and before[k2] == v)}
            if not judge_append(mon, cfg, ref_files, view, None, **w):
                return
            # the input is rewritten by the harness itself at the start of the run
            after.setdefault("input", before["input"])
            if not after["input"]:
                after["input"] = before["input"]
            if not judge_kept(mon, before, after, set(names), OWN, **w):
                return


def run_timed(rng, mon):
    """Real processes killed after a random time"""
    import subprocess

    cfg, n_dim, sub = make(rng, bd=True)
    cfg["ld"]["n_steps"] = 4000
    cfg.pop("fes", None)
    cfg.pop("delta-f", None)
    cfg.pop("histogram", None)
    for sec in ("trajectories", "particle-distribution"):
        if sec in cfg:
            cfg[sec]["write-stride"] = cfg[sec].get("stride", 1) * 10
            if sec != "trajectories" and "stride" not in cfg[sec]:
                del cfg[sec]["write-stride"]
    res, ref_files = reference(mon, cfg, n_dim, sub)
    if res is None:
        return
    with sim.fresh_dir():
        prepare(cfg, n_dim, sub)
        before = outputs.read_tree()
        p = subprocess.Popen([sim.PY, "-W", "ignore", sim.CLI, "input"], stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        t0 = time.time()
        names = list(intervals(cfg))
        while time.time() - t0 < 60 and p.poll() is None and not any(os.path.exists(n) for n in names):
            time.sleep(0.01)
        time.sleep(float(rng.uniform(0.0, 0.4)))
        p.send_signal(signal.SIGKILL)
        p.wait()
        after = outputs.read_tree()
    mon.count("interrupted runs")
    mon.count("killed at a random time")
    mon.sig("timed", sorted(cfg))
    w = dict(how="timed", interrupted=True)
    judge_append(mon, cfg, ref_files, after, None, **w)
    judge_kept(mon, before, after, set(outputs.output_files(cfg, cfg["particles"]["number"])), OWN, **w)


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(rerun=run_rerun, longrerun=run_long_rerun, kill=run_kill, fileop=run_fileop, timed=run_timed)[case["mode"]](rng, mon)
