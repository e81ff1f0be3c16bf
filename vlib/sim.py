"""Drive the program: write input files, run it in-process or as subprocess, record"""
import contextlib
import io
import logging
import os
import subprocess
import sys
import traceback

import numpy as np

from vlib import boot

PY = sys.executable
CLI = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bdld_cli.py")


def fmt_value(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return ", ".join(fmt_value(x) for x in v)
    if isinstance(v, (bool, np.bool_)):
        return "true" if v else "false"
    if isinstance(v, (float, np.floating)):
        return repr(float(v))
    return str(v)


def input_text(cfg):
    """Input file text from {section: {option: value}} (None values are left out)"""
    out = []
    for sec, opts in cfg.items():
        out.append(f"[{sec}]")
        for k, v in opts.items():
            if v is not None:
                out.append(f"{k}: {fmt_value(v)}")
        out.append("")
    return "\n".join(out) + "\n"


def write_input(cfg, path="input"):
    text = cfg if isinstance(cfg, str) else input_text(cfg)
    with open(path, "w") as f:
        f.write(text)
    return text


class Snap:
    """Copy of the state of all particles"""

    __slots__ = ("pos", "mom", "mass", "energy", "forces", "n", "ids")

    def __init__(self, particles):
        ps = list(particles)
        self.n = len(ps)
        self.pos = np.array([np.array(p.pos, dtype=float) for p in ps])
        self.mom = np.array([np.array(p.mom, dtype=float) for p in ps])
        self.mass = np.array([float(p.mass) for p in ps])
        self.energy = np.array([float(p.energy) for p in ps])
        self.forces = np.array([np.array(p.forces, dtype=float).ravel() for p in ps])
        self.ids = [id(p) for p in ps]

    def same(self, other):
        return (
            self.n == other.n
            and np.array_equal(self.pos, other.pos, equal_nan=True)
            and np.array_equal(self.mom, other.mom, equal_nan=True)
            and np.array_equal(self.mass, other.mass, equal_nan=True)
            and np.array_equal(self.energy, other.energy, equal_nan=True)
            and np.array_equal(self.forces, other.forces, equal_nan=True)
        )


class Recorder:
    """Records states and events around the actions of a program run

    Wraps the run methods of the action classes from outside, nothing in the
    repository is changed. end_of_step[k] is the state after time step k (k=0: initial).
    """

    def __init__(self, on_event=None, probe=None):
        self.end_of_step = []
        self.after_ld = []
        self.after_bd = []
        self.events = []  # (action, method, step)
        self.instances = {}
        self.bd_events = []  # (step, events)
        self.histo_data = {}  # step -> counts after histogram action
        self.fes_data = {}
        self.histo_after_fes = {}
        self.final = None
        self.on_event = on_event
        self.probe = probe  # called with (stage, action, step) after ld and birth-death
        self._patched = []
        self.finished_loop = False

    def _patch(self, cls, name, make):
        orig = getattr(cls, name)
        had = name in cls.__dict__
        self._patched.append((cls, name, cls.__dict__.get(name), had))
        setattr(cls, name, make(orig))

    def __enter__(self):
        from bdld import actions

        rec = self

        def ld_run(orig):
            def run(self, *args, **kw):
                step = args[0] if args else kw.get("step")
                rec.instances["ld"] = self
                rec.end_of_step.append(Snap(self.particles))
                rec._event("ld", "run", step)
                res = orig(self, *args, **kw)
                rec.after_ld.append(Snap(self.particles))
                if rec.probe:
                    rec.probe("ld", self, step)
                return res

            return run

        def ld_final(orig):
            def final_run(self, *args, **kw):
                rec.instances["ld"] = self
                rec.final = Snap(self.particles)
                rec.end_of_step.append(rec.final)
                rec._event("ld", "final_run", args[0] if args else kw.get("step"))
                return orig(self, *args, **kw)

            return final_run

        for cls in (actions.bussi_parinello_ld.BussiParinelloLD, actions.overdamped_ld.OverdampedLD):
            self._patch(cls, "run", ld_run)
            self._patch(cls, "final_run", ld_final)

        def generic(name, method, after=None):
            def make(orig):
                def run(self, *args, **kw):
                    step = args[0] if args else kw.get("step")
                    rec.instances[name] = self
                    rec._event(name, method, step)
                    res = orig(self, *args, **kw)
                    if after:
                        after(self, step, method)
                    return res

                return run

            return make

        def after_bd(self, step, method):
            if method == "run":
                rec.after_bd.append(Snap(self.particles))
                if rec.probe:
                    rec.probe("bd", self, step)

        def after_histo(self, step, method):
            key = step if method == "run" else "final"
            rec.histo_data[key] = np.array(self.histo.data, dtype=float)

        def after_fes(self, step, method):
            key = step if method == "run" else "final"
            rec.fes_data[key] = np.array(self.fes.data, dtype=float)
            h = rec.instances.get("histogram")
            if h is not None:
                rec.histo_after_fes[key] = np.array(h.histo.data, dtype=float)

        for name, cls, after in (
            ("birth-death", actions.birth_death.BirthDeath, after_bd),
            ("trajectories", actions.trajectory_action.TrajectoryAction, None),
            ("histogram", actions.histogram_action.HistogramAction, after_histo),
            ("fes", actions.fes_action.FesAction, after_fes),
            ("delta-f", actions.delta_f_action.DeltaFAction, None),
            ("particle-distribution",
             actions.particle_distribution.ParticleDistributionAction, None),
        ):
            self._patch(cls, "run", generic(name, "run", after))
            self._patch(cls, "final_run", generic(name, "final_run", after))

        def do_bd(orig):
            def do_birth_death(self, *args, **kw):
                rec.bd_before = Snap(self.particles)
                res = orig(self, *args, **kw)
                rec.bd_events.append((rec.cur_step, [tuple(int(x) for x in e) for e in res]))
                return res

            return do_birth_death

        self._patch(actions.birth_death.BirthDeath, "do_birth_death", do_bd)
        self.cur_step = None
        return self

    def _event(self, action, method, step):
        if method == "run":
            self.cur_step = step
        self.events.append((action, method, step))
        if self.on_event:
            self.on_event(action, method, step)

    def __exit__(self, *exc):
        for cls, name, orig, had in reversed(self._patched):
            if had:
                setattr(cls, name, orig)
            else:
                delattr(cls, name)
        self._patched = []
        return False


class Result:
    def __init__(self):
        self.exit = None
        self.stdout = ""
        self.stderr = ""
        self.exc = None
        self.tb = ""
        self.rec = None

    @property
    def ok(self):
        return self.exit == 0


def run_main(cfg, record=True, path="input", on_event=None, extra_args=(), probe=None):
    """Run the main function of the program in this process and current directory"""
    from bdld import main as bdld_main

    write_input(cfg, path)
    res = Result()
    argv = sys.argv
    out = io.StringIO()
    err = io.StringIO()
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    rec = Recorder(on_event=on_event, probe=probe) if record else contextlib.nullcontext()
    sys.argv = ["bdld", path, *extra_args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            with rec as r:
                res.rec = r
                try:
                    bdld_main.main()
                    res.exit = 0
                except SystemExit as e:
                    res.exit = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except Exception as e:
                    res.exit = 1
                    res.exc = e
                    res.tb = traceback.format_exc()
    finally:
        sys.argv = argv
        for h in list(root.handlers):
            root.removeHandler(h)
    res.stdout = out.getvalue()
    res.stderr = err.getvalue()
    return res


@contextlib.contextmanager
def fresh_dir():
    """Run inside a new directory below the current one, which is removed afterwards"""
    import shutil
    import tempfile

    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="run", dir=old)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def must_run(mon, cfg, **kw):
    """Run a legal configuration; not finishing is a violation. Returns Result or None"""
    res = run_main(cfg, **kw)
    mon.count("executions")
    if not mon.check(res.ok, "legal input runs to completion", exit=res.exit,
                     stderr=res.stderr[-800:], tb=res.tb[-1500:],
                     input=input_text(cfg) if not isinstance(cfg, str) else cfg):
        return None
    return res


def run_cli(path="input", cwd=None, env=None, timeout=200, args=(), module=True):
    """Run the program as a process of its own. Returns CompletedProcess"""
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(
        [PY, "-W", "ignore", CLI, path, *args], cwd=cwd, env=e, timeout=timeout,
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )


# --- reading output files independently of the code under test


def read_table(path):
    """Return (header fields, constants, data rows as list of lists of str)"""
    fields, consts, rows = None, {}, []
    with open(path) as f:
        for line in f:
            if line.startswith("#!"):
                parts = line[2:].split(None, 2)
                if parts and parts[0] == "FIELDS":
                    fields = line[2:].split()[1:]
                elif parts and parts[0] == "SET":
                    consts[parts[1]] = parts[2].strip() if len(parts) > 2 else ""
            elif line.strip():
                rows.append(line.split())
    return fields, consts, rows


def table_values(rows):
    return np.array([[float(x) for x in r] for r in rows], dtype=float)


def fmt_tol(fmt):
    """Absolute/relative rounding tolerance of a printf format"""
    import re

    m = re.match(r"%[-+ 0]*(\d*)(?:\.(\d+))?([a-zA-Z])", fmt)
    prec = int(m.group(2)) if m.group(2) else 6
    kind = m.group(3).lower()
    if kind == "f":
        return 0.50001 * 10.0**-prec, 1e-15
    if kind == "e":
        return 0.0, 0.50001 * 10.0**-prec + 1e-15
    if kind == "d":
        return 1.0, 0.0
    return 1e-300, 0.50001 * 10.0 ** (1 - prec) + 1e-15  # g
