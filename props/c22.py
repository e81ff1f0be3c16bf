"""C22: plots show the surface that was calculated and disturb nothing"""
import builtins
import contextlib
import os

import numpy as np

from vlib import core, gen, outputs, ref, sim

RULE = "one signature per (n_steps, stride, plot-stride, trajectory write-stride, file type, domain, title, dimension)"
REQUIRED = {
    "program runs": 120,
    "plots": 400,
    "plots in 1d": 200,
    "plots in 2d": 80,
    "plots with domain": 100,
    "plots of steps": 200,
    "plots with empty bins": 100,
    "runs compared with and without plots": 40,
    "runs in 3d": 4,
}
ASSUMPTIONS = [
    "what a plot shows is read from the figure object when it is saved (curves, image, limits, texts)",
    "the position of the edges of a 2-d image is only required within one bin",
]
EXT = [".png", ".png", ".pdf", ".svg", ""]
MAGIC = {".png": b"\x89PNG", ".pdf": b"%PDF", ".svg": b"<?xml", "": b"\x89PNG"}


def cases(tier, seed):
    m = 48 if tier == "quick" else 500
    return [dict(mode="run", dim=[1, 2, 1, 2, 1, 3, 1, 2][i % 8], seed=seed * 100801 + i) for i in range(m)]


class Plots:
    """Records every figure that is saved"""

    def __init__(self):
        self.saved = []
        self.prompts = 0
        self.clock = lambda: None

    @contextlib.contextmanager
    def watch(self):
        from matplotlib.figure import Figure

        orig, orig_input = Figure.savefig, builtins.input
        plots = self

        def savefig(fig, fname, *args, **kw):
            res = orig(fig, fname, *args, **kw)
            plots.saved.append(plots.read(fig, fname))
            return res

        def no_input(*args):
            plots.prompts += 1
            raise EOFError("nobody is there to answer")

        Figure.savefig, builtins.input = savefig, no_input
        try:
            yield self
        finally:
            Figure.savefig, builtins.input = orig, orig_input

    def read(self, fig, fname):
        d = dict(name=os.fspath(fname) if isinstance(fname, (str, os.PathLike)) else None,
                 lines=[], images=[], others=0, when=self.clock())
        from matplotlib.text import Text

        d["texts"] = [t.get_text() for t in fig.findobj(Text)]
        for ax in fig.axes:
            if ax.get_label() == "<colorbar>":
                continue
            for ln in ax.lines:
                x, y = (np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in ln.get_data())
                d["lines"].append((np.array(x), np.array(y), tuple(ax.get_ylim())))
            for im in ax.images:
                a = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
                l, r, b, t = im.get_extent()
                if im.origin == "upper":
                    a = a[::-1]
                if b > t:
                    a, b, t = a[::-1], t, b
                if l > r:
                    a, l, r = a[:, ::-1], r, l
                up = ax.get_ylim()[0] < ax.get_ylim()[1] and ax.get_xlim()[0] < ax.get_xlim()[1]
                d["images"].append((np.array(a), (l, r, b, t), tuple(im.get_clim()), up))
            d["others"] += len(ax.collections)
        return d


def shows(got, want):
    """Equal; bins without counts may also be left out"""
    if got.shape != want.shape:
        return False
    fin = np.isfinite(want)
    return bool(np.allclose(got[fin], want[fin], rtol=1e-9, atol=1e-12) and not np.isfinite(got[~fin]).any())


def judge(mon, plot, fes, mids, nb, refsurf, domain, /, **w):
    n_dim = len(nb)
    mon.count("plots")
    mon.count(f"plots in {n_dim}d")
    if domain:
        mon.count("plots with domain")
    if not np.all(np.isfinite(fes)):
        mon.count("plots with empty bins")
    if n_dim == 1:
        x = mids[0]
        on = [ln for ln in plot["lines"] if ln[0].shape == x.shape and np.allclose(ln[0], x, rtol=1e-9, atol=1e-9)]
        f = [ln for ln in on if shows(ln[1], fes)]
        r = [ln for ln in on if ln[1].shape == refsurf.shape and np.allclose(ln[1], refsurf, rtol=1e-8, atol=1e-8)]
        ok = mon.check(f, "the plot shows the calculated surface over the bin midpoints", surface=fes,
                       curves=[ln[1] for ln in plot["lines"]], **w)
        ok &= mon.check(r, "the plot shows the reference surface", reference=refsurf,
                        curves=[ln[1] for ln in plot["lines"]], **w)
        ok &= mon.check(len(plot["lines"]) == 2, "the plot shows nothing else", n=len(plot["lines"]), **w)
        if ok:
            lo, hi = f[0][2]
            if domain:
                mon.check(np.allclose((lo, hi), domain), "plot-domain is shown", got=(lo, hi), want=domain, **w)
            elif np.isfinite(fes).any():
                fin = fes[np.isfinite(fes)]
                mon.check(lo <= fin.min() and hi >= fin.max(), "the whole surface is visible", got=(lo, hi),
                          want=(fin.min(), fin.max()), **w)
        return ok
    if not plot["images"]:
        if plot["others"]:
            raise core.Inconclusive("2-d surface is not plotted as an image")
        return mon.check(False, "the surface is plotted as an image", **w)
    ok = mon.check(len(plot["images"]) == 1, "the plot shows nothing else", n=len(plot["images"]), **w)
    a, (l, r, b, t), clim, up = plot["images"][0]
    if not up:
        raise core.Inconclusive("inverted axes")
    ok &= mon.check(a.shape == (nb[1], nb[0]) and shows(a.T, fes),
                    "the image shows the calculated surface, first dimension horizontally", shape=a.shape, bins=nb,
                    transposed=bool(a.shape == tuple(nb) and shows(a, fes)), **w)
    for (e0, e1), m in (((l, r), mids[0]), ((b, t), mids[1])):
        step = m[1] - m[0]
        ok &= mon.check(abs(e0 - m[0]) <= 0.51 * step and abs(e1 - m[-1]) <= 0.51 * step,
                        "the image covers the range of the histogram", got=(e0, e1), mids=(m[0], m[-1]), **w)
    if domain:
        ok &= mon.check(np.allclose(clim, domain), "plot-domain is shown", got=clim, want=domain, **w)
    return ok


def make_config(rng, n_dim):
    n_steps = int(outputs.pick(rng, [1, 6, 12, 13, 20, 30, 41]))
    cfg, n_dim, ranges = gen.base_config(rng, n_steps, n_dim=n_dim)
    W = int(outputs.pick(rng, [1, 2, 3, 5, 10, 100]))
    cfg["trajectories"] = {"write-stride": W}
    if rng.random() < 0.3:
        cfg["trajectories"]["filename"] = "traj"
    cfg["histogram"] = outputs.histo_section(rng, n_dim, ranges, n_steps, "histo" if rng.random() < 0.4 else None)
    cfg["histogram"]["bins"] = int(rng.integers(3, 30)) if n_dim == 1 else [int(x) for x in rng.integers(2, 9, size=n_dim)]
    stride = outputs.pick(rng, [None, 1, 2, 3, 5, 10])
    ext = outputs.pick(rng, EXT)
    fes = {"kt": float(np.round(rng.uniform(0.2, 3.0), 2)), "plot-filename": outputs.pick(rng, ["plot", "my_fes", "a.b"]) + ext}
    if ext == "":
        fes["plot-filename"] = "picture"
    if stride:
        fes["stride"] = stride
        if rng.random() < 0.8:
            fes["plot-stride"] = int(outputs.pick(rng, [stride, 2 * stride, 5 * stride, 3, 7, 10]))
    if rng.random() < 0.5:
        fes["filename"] = "surface"
        if stride and rng.random() < 0.5:
            fes["write-stride"] = stride
    if rng.random() < 0.45:
        fes["plot-domain"] = [float(np.round(rng.uniform(-1, 0.5), 2)), float(np.round(rng.uniform(1, 9), 2))]
    if rng.random() < 0.4:
        fes["plot-title"] = outputs.pick(rng, ["Some title", "FES-1"])
    cfg["fes"] = fes
    if rng.random() < 0.3:
        cfg["delta-f"] = outputs.strided(rng, outputs.states(rng, ranges, 2), "df")
    return cfg, n_dim, ranges


def expected_names(base, steps):
    root, ext = os.path.splitext(base)
    end = ext or ".png"
    return [f"{root}_{s}{end}" for s in steps], root + end


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    for rep in range(4 if case["dim"] < 3 else 2):
        with sim.fresh_dir():
            cfg, n_dim, ranges = make_config(rng, case["dim"])
            if not one(mon, rng, cfg, n_dim):
                return


def one(mon, rng, cfg, n_dim):
    sec, n_steps = cfg["fes"], cfg["ld"]["n_steps"]
    rr, nb = outputs.grid_of(cfg["histogram"])
    inputs = set(os.listdir("."))
    plots = Plots()
    count = [0]

    def on_event(action, method, step):
        if action == "fes":
            count[0] = (step if method == "run" else "final")

    plots.clock = lambda: count[0]
    with plots.watch():
        res = sim.run_main(cfg, on_event=on_event)
    mon.count("program runs")
    w = dict(input=sim.input_text(cfg))
    if not mon.check(res.ok and not plots.prompts, "a run with plots needs no user and finishes", prompts=plots.prompts,
                     stderr=res.stderr[-500:], tb=res.tb[-800:], **w):
        return False
    if n_dim == 3:
        mon.count("runs in 3d")
        return True
    ps, stride = sec.get("plot-stride"), sec.get("stride")
    steps = outputs.multiples(ps, n_steps) if ps else []
    names, last = expected_names(sec["plot-filename"], steps)
    mon.sig(n_steps, stride, ps, cfg["trajectories"]["write-stride"], os.path.splitext(last)[1], "plot-domain" in sec,
            "plot-title" in sec, n_dim)
    made = sorted(f for f in os.listdir(".") if os.path.splitext(f)[1] in (".png", ".pdf", ".svg"))
    ok = mon.check(made == sorted(names + [last]), "one plot file per multiple of the plot-stride and a final one",
                   got=made, want=sorted(names + [last]), **w)
    if not ok:
        return False
    for f in made:
        with open(f, "rb") as fh:
            mon.check(fh.read(5).startswith(MAGIC[os.path.splitext(f)[1]]), "plot files are images of their type", file=f)
    if not mon.check(len(plots.saved) == len(steps) + 1, "every plot is made once", n=len(plots.saved), want=len(steps) + 1, **w):
        return False
    if n_dim == 1 or "coeffs-file" in cfg["potential"]:
        r = gen.ref_potential(cfg)
    else:
        r = ref.Offset(gen.ref_potential(cfg), res.rec.instances["ld"].pot)
    pts = ref.midpoints(rr, nb)
    mids = [np.unique(np.round(pts[:, d], 12)) for d in range(n_dim)]
    mids = [np.array([lo + (hi - lo) * (2 * i + 1) / (2 * n) for i in range(n)]) for (lo, hi), n in zip(rr, nb)]
    refsurf = np.array([float(r.energy(p)) for p in pts])
    refsurf -= refsurf.min()
    for plot, s in zip(plots.saved, steps + ["final"]):
        if s == "final":
            counts, title = res.rec.histo_data["final"], sec.get("plot-title")
        else:
            calc = [k for k in outputs.multiples(stride, s)]
            counts, title = (res.rec.histo_data[calc[-1]] if calc else np.zeros(nb)), sec.get("plot-title")
            mon.count("plots of steps")
        fes = outputs.fes_from_counts(counts, sec["kt"])
        ok = mon.check(plot["when"] == s, "plots are made at their step", got=plot["when"], want=s, **w)
        ok = ok and judge(mon, plot, fes, mids, nb, refsurf, sec.get("plot-domain"), at=s, **w)
        if title and n_dim == 1:
            ok = ok and mon.check(any(title in t for t in plot["texts"]), "the plot has its title", texts=plot["texts"], **w)
        if not ok:
            return False
    mon.sample(dict(fes=sec, plots=[p["name"] for p in plots.saved]))
    if rng.random() < 0.5:  # the same run without plots
        tree = {k: v for k, v in outputs.read_tree(".").items() if k not in made and k != "input"}
        with sim.fresh_dir() as d:
            for f in inputs:
                if os.path.isfile(os.path.join("..", f)):
                    with open(os.path.join("..", f), "rb") as a, open(f, "wb") as b:
                        b.write(a.read())
            cfg2 = dict(cfg)
            cfg2["fes"] = {k: v for k, v in sec.items() if not k.startswith("plot")}
            res2 = sim.run_main(cfg2)
            tree2 = {k: v for k, v in outputs.read_tree(".").items() if k != "input"}
        mon.count("runs compared with and without plots")
        diff = sorted(k for k in set(tree) | set(tree2) if tree.get(k) != tree2.get(k))
        ok = mon.check(res2.ok and not diff, "plots do not change any other output", differing=diff, **w)
        ok = ok and mon.check(all(a.same(b) for a, b in zip(res.rec.end_of_step, res2.rec.end_of_step)),
                              "plots do not change the motion of walkers", **w)
        return ok
    return True
