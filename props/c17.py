"""C17: invalid input is rejected with a clear error, valid input is parsed exactly"""
import codecs
import contextlib
import io
import locale
import os
import re

import numpy as np

from vlib import core, gen, sim

RULE = ("valid inputs: one signature per (sections, dimension, integrator, potential, initial distribution, options "
        "given, options taken from [DEFAULT]); invalid inputs: per (section, option, kind of corruption, dimension)")
REQUIRED = {
    "valid inputs parsed": 500,
    "option values compared": 8000,
    "values taken from [DEFAULT]": 100,
    "defaults of omitted options": 1000,
    "invalid inputs": 1500,
    "invalid: missing option": 150,
    "invalid: missing section": 100,
    "invalid: not convertible": 300,
    "invalid: out of bounds": 200,
    "invalid: unknown choice": 100,
    "invalid: state definitions": 60,
    "programs run as process": 40,
}
ASSUMPTIONS = [
    "input files follow the configparser syntax",
    "error messages are read from stderr",
]

# --- independent table of all options: (type, required, bound)
F, I, B, S, LF, LI = "float", "int", "bool", "str", "list of float", "list of int"
POS, NONNEG = "> 0", ">= 0"


def table(n_dim, ld_type, pot_type, init, one_d_file, n_pos, n_states):
    """{section: {option: (type, required, bound, default)}}"""
    num = F if n_dim == 1 else LF
    t = {}
    t["ld"] = {"type": (S, True, None, None), "timestep": (F, True, NONNEG, None), "n_steps": (I, True, POS, None),
               "seed": (I, False, None, None)}
    if ld_type == "bussi-parinello":
        t["ld"].update({"kt": (F, True, POS, None), "friction": (F, True, NONNEG, None)})
    if pot_type == "polynomial":
        p = {"type": (S, True, None, None), "n_dim": (I, True, "1..3", None), "min": (num, True, None, None),
             "max": (num, True, None, None)}
        if n_dim == 1 and not one_d_file:
            p["coeffs"] = (LF, True, None, None)
        else:
            p["coeffs-file"] = (S, True, None, None)
    else:
        p = {"type": (S, True, None, None), "scaling-factor": (F, False, None, None), "n_dim": (I, False, None, 2)}
    p["boundary-condition"] = (S, False, None, None)
    t["potential"] = p
    q = {"number": (I, True, POS, None), "mass": (F, False, POS, 1.0), "seed": (I, False, None, None),
         "initial-distribution": (S, True, None, None)}
    if init != "random-global":
        q.update({f"pos{i+1}": (LF, i == 0, None, None) for i in range(n_pos)})
    if init == "fractions-pos":
        q["fractions"] = (LF, True, None, None)
    t["particles"] = q
    t["birth-death"] = {
        "stride": (I, True, POS, None), "kernel-bandwidth": (num, True, POS, None),
        "correction-variant": (S, False, None, None), "approximation-variant": (S, False, None, None),
        "exponential-factor": (F, False, POS, None), "recalculate-probabilities": (B, False, None, False),
        "stats-stride": (I, False, POS, None), "stats-filename": (S, False, None, None), "seed": (I, False, None, None)}
    t["trajectories"] = {"filename": (S, False, None, None), "stride": (I, False, POS, None),
                         "momentum": (B, False, None, None), "write-stride": (I, False, POS, None),
                         "fmt": (S, False, None, None)}
    t["histogram"] = {"stride": (I, False, POS, None), "reset": (LI, False, POS, None),
                      "filename": (S, False, None, None), "write-stride": (I, False, POS, None),
                      "fmt": (S, False, None, None), "min": (num, True, None, None), "max": (num, True, None, None),
                      "bins": (I if n_dim == 1 else LI, True, POS, None)}
    t["fes"] = {"kt": (F, True, POS, None), "stride": (I, False, POS, None), "filename": (S, False, None, None),
                "write-stride": (I, False, POS, None), "fmt": (S, False, None, None),
                "plot-stride": (I, False, None, None), "plot-filename": (S, False, None, None),
                "plot-domain": (LF, False, None, None), "plot-title": (S, False, None, None)}
    states = {}
    for i in range(n_states):
        states[f"state{i+1}-min"] = (LF, True, None, None)
        states[f"state{i+1}-max"] = (LF, True, None, None)
    for sec in ("delta-f", "particle-distribution"):
        t[sec] = {"stride": (I, False, POS, None), "filename": (S, False, None, None),
                  "write-stride": (I, False, POS, None), "fmt": (S, False, None, None), **states}
    return t


# what the documentation allows an omitted option to mean (the parser may leave it to the action)
DOC_DEFAULTS = {
    ("trajectories", "stride"): 1, ("trajectories", "write-stride"): 100, ("trajectories", "momentum"): False,
    ("histogram", "stride"): 1, ("birth-death", "exponential-factor"): 1.0,
    ("birth-death", "approximation-variant"): "original", ("potential", "scaling-factor"): 1.0,
}


def cases(tier, seed):
    mul = 1 if tier == "quick" else 14
    return ([dict(mode="valid", seed=seed * 100609 + i) for i in range(24 * mul)]
            + [dict(mode="invalid", seed=seed * 100613 + i) for i in range(32 * mul)]
            + [dict(mode="process", seed=seed * 100621 + i) for i in range(8 * mul)])


# --- generation of values together with their text


def text_int(rng, v):
    forms = [str(v), f"{v} ", f"  {v}"]
    if v >= 0:
        forms.append(f"+{v}")
    if v >= 1000:
        forms.append(f"{v:_}")
    return str(rng.choice(forms))


def text_float(rng, v):
    forms = [repr(v), f" {v!r}", f"{v:.17e}"]
    if v == int(v) and abs(v) < 1e6:
        forms += [str(int(v)), f"{int(v)}."]
    if 0 < v < 1:
        forms.append(repr(v).lstrip("0") if "e" not in repr(v) else repr(v))
    return str(rng.choice(forms))


def text(rng, kind, v):
    if kind == F:
        return text_float(rng, v)
    if kind == I:
        return text_int(rng, v)
    if kind == B:
        word = str(rng.choice(["true", "yes", "on", "1"] if v else ["false", "no", "off", "0"]))
        return str(rng.choice([word, word.upper(), word.capitalize()]))
    if kind == S:
        return v
    one = text_float if kind == LF else text_int
    sep = str(rng.choice([",", ", ", " , ", ",  "]))
    return sep.join(one(rng, x).strip() for x in v)


def num(rng, lo, hi):
    return float(np.round(rng.uniform(lo, hi), int(rng.integers(0, 6))))


class Spec:
    """A legal input with expected values: cfg[section][option] = (type, value)"""

    def __init__(self, rng, n_dim=None, sections=None, runnable=False, mb=None):
        self.rng = rng
        self.n_dim = n_dim = int(n_dim or rng.integers(1, 4))
        self.mb = mb if mb is not None else (n_dim == 2 and rng.random() < 0.4)
        self.ld_type = str(rng.choice(["bussi-parinello", "overdamped"]))
        self.init = str(rng.choice(["random-global", "random-pos", "fractions-pos"]))
        self.one_d_file = bool(n_dim == 1 and rng.random() < 0.2)
        self.n_pos = int(rng.integers(1, 5) if rng.random() < 0.9 else rng.integers(9, 14))
        self.n_states = int(rng.integers(2, 5) if rng.random() < 0.9 else rng.choice([9, 10, 11, 12, 15, 22]))
        pot_type = "mueller-brown" if self.mb else "polynomial"
        self.table = table(n_dim, self.ld_type, pot_type, self.init, self.one_d_file, self.n_pos, self.n_states)
        self.ranges = [(-1.5, 1.5), (-0.5, 2.5)] if self.mb else [(-2.5, 2.5), (-2.0, 2.25), (-1.0, 1.5)][:n_dim]
        if sections is None:
            sections = [s for s in ("birth-death", "trajectories", "histogram", "fes", "delta-f",
                                    "particle-distribution") if rng.random() < 0.6]
            for a, b in (("delta-f", "fes"), ("fes", "histogram"), ("histogram", "trajectories")):
                if a in sections and b not in sections:
                    sections.append(b)
        self.sections = ["ld", "potential", "particles"] + list(sections)
        self.cfg = {s: self.fill(s) for s in self.sections}
        if runnable:
            self.cfg["ld"]["n_steps"] = int(rng.integers(2, 12))
            self.cfg["ld"]["timestep"] = 0.001
            self.cfg["particles"]["number"] = int(rng.integers(2, 7))
            if "friction" in self.cfg["ld"]:
                self.cfg["ld"]["friction"] = 5.0
            self.cfg["particles"]["mass"] = 1.0
            self.cfg.get("birth-death", {}).pop("correction-variant", None)
            self.cfg.get("birth-death", {}).pop("approximation-variant", None)
            for k in ("plot-filename", "plot-stride"):
                self.cfg.get("fes", {}).pop(k, None)
            for sec in ("histogram", "fes", "delta-f", "particle-distribution"):
                o = self.cfg.get(sec, {})  # refused combinations
                if "stride" not in o or "filename" not in o:
                    o.pop("write-stride", None)
                if "write-stride" in o:
                    o["write-stride"] = o["stride"] * int(rng.integers(1, 4))
            if "scaling-factor" in self.cfg["potential"]:
                self.cfg["potential"]["scaling-factor"] = 0.1
            if "boundary-condition" not in self.cfg["potential"] and self.mb:
                self.cfg["potential"]["boundary-condition"] = "reflective"
            if "birth-death" in self.cfg:
                self.cfg["birth-death"]["exponential-factor"] = 10.0

    def value(self, sec, key):
        """Legal value of an option"""
        rng = self.rng
        kind, _, bound, _ = self.table[sec][key]
        per_dim = [0.0] * self.n_dim
        if key == "type":
            return self.ld_type if sec == "ld" else ("mueller-brown" if self.mb else "polynomial")
        if key == "n_dim":
            return self.n_dim
        if key == "coeffs-file":
            return "pot.coeffs"
        if key == "coeffs":
            return [num(rng, -2, 2) for _ in range(int(rng.integers(1, 6)))] + [0.0, 1.0]
        if key == "boundary-condition":
            return str(rng.choice(["reflective", "periodic"]))
        if key == "initial-distribution":
            return self.init
        if key.startswith("pos"):
            return [num(rng, lo + 0.6, hi - 0.6) for lo, hi in self.ranges]
        if key == "fractions":
            return [float(rng.integers(1, 9)) for _ in range(self.n_pos)]
        if key in ("correction-variant", "approximation-variant"):
            return str(rng.choice(["original", "orig", "additive", "add", "multiplicative", "mult"]))
        if key == "fmt":
            return str(rng.choice(["%12.6f", "%.9e", "%g"]))
        if key in ("min", "max"):
            j = 0 if key == "min" else 1
            v = [float(r[j]) for r in self.ranges]
            return v if self.n_dim > 1 else v[0]
        if key == "bins":
            v = [int(rng.integers(1, 40)) for _ in per_dim]
            return v if self.n_dim > 1 else v[0]
        if key == "kernel-bandwidth":
            v = [float(np.round(rng.uniform(0.1, 0.9), 3)) for _ in per_dim]
            return v if self.n_dim > 1 else v[0]
        m = re.fullmatch(r"state(\d+)-(min|max)", key)
        if m:
            return [num(rng, lo, hi) for lo, hi in self.ranges]
        if key == "plot-title" and rng.random() < 0.6:
            return str(rng.choice(['"Run 1"', "state 'A'", '"a" and "b"', "(x, y) = [1]", "F: 0 = min", "a  b"]))
        if key == "plot-domain":
            return [0.0, num(rng, 5, 12)]
        if key == "reset":
            return [int(rng.integers(1, 1000)) for _ in range(int(rng.integers(1, 4)))]
        if kind == I:
            return int(rng.integers(1, 3000)) if bound else int(rng.integers(0, 10**6))
        if kind == F:
            if bound == NONNEG and rng.random() < 0.3:
                return 0.0
            return float(np.round(rng.uniform(0.001, 4), 4))
        if kind == B:
            return bool(rng.random() < 0.5)
        return str(rng.choice(["out_a", "some.file", "run-1/data x", "name;x", "a=b", "Run_A.DAT", "MixedCase", "run #1 ", "A ; b"])).replace("/", "_") + key

    def fill(self, sec):
        out = {}
        keys = list(self.table[sec])
        for key in keys:
            need = self.table[sec][key][1] or key.startswith("pos")
            if need or self.rng.random() < 0.5:
                out[key] = self.value(sec, key)
        return out

    def texts(self):
        t = {}
        for sec, opts in self.cfg.items():
            t[sec] = {}
            for k, v in opts.items():
                s = text(self.rng, self.table[sec][k][0], v)
                t[sec][k] = s.replace("%", "%%") if k == "fmt" else s
        return t


# names of people, Greek symbols and units; files are written and read in the preferred encoding
FOREIGN = (["# Müller-Brown", "; \u03b2 = 1/kT, \u0394F in \u00b5J \u2013 test"]
           if codecs.lookup(locale.getpreferredencoding(False)).name == "utf-8" else [])


def layout(rng, texts, default=None, decorate=True):
    """Input file text in one of the many legal layouts"""
    order = list(texts)
    if rng.random() < 0.5:
        rng.shuffle(order)
    blocks = [(s, texts[s]) for s in order]
    if default:
        blocks.insert(int(rng.integers(len(blocks) + 1)), ("DEFAULT", default))
    lines = []
    for sec, opts in blocks:
        if decorate and rng.random() < 0.2:
            lines.append(str(rng.choice(["# comment", "; comment", "", "# [ld]"] + FOREIGN)))
        lines.append(f"[{sec}]")
        keys = list(opts)
        if rng.random() < 0.5:
            rng.shuffle(keys)
        for k in keys:
            name = k
            if decorate and rng.random() < 0.1:
                name = str(rng.choice([k.upper(), k.capitalize()]))
            sep = str(rng.choice([": ", "=", " = ", ":"])) if decorate else ": "
            lines.append(f"{name}{sep}{opts[k]}")
            if decorate and rng.random() < 0.05:
                lines.append("# option: 3")
        if decorate and rng.random() < 0.3:
            lines.append(str(rng.choice(["unknown-option: 3", "foo = bar", "strides: abc", "states: 5,x"])))
        lines.append("")
    if decorate and rng.random() < 0.2:
        lines += [str(rng.choice(["[something-else]", "[plot]"])), "stride: abc"]
    return "\n".join(lines) + "\n"


ATTR = {"ld": "ld", "potential": "potential", "particles": "particles", "birth-death": "birth_death",
        "trajectories": "trajectories", "histogram": "histogram", "fes": "fes", "delta-f": "delta_f",
        "particle-distribution": "particle_distribution"}
PYTYPE = {F: float, I: int, B: bool, S: str}


def same_value(kind, got, want):
    if kind in PYTYPE:
        return type(got) is PYTYPE[kind] and got == want
    one = float if kind == LF else int
    try:
        got = list(got)
    except TypeError:
        return False
    return len(got) == len(want) and all(type(g) is one and g == w for g, w in zip(got, want))


def parse(path):
    from bdld import inputparser

    with contextlib.redirect_stdout(io.StringIO()):
        return inputparser.Input(path)


def judge_parsed(mon, spec, inp, defaulted, content):
    """Compare parsed dictionaries with the expected values"""
    for sec, attr in ATTR.items():
        got = getattr(inp, attr)
        if sec not in spec.cfg:
            if not mon.check(not got, "absent sections are not active", section=sec, got=got, input=content):
                return False
            continue
        if not mon.check(bool(got), "present sections are active", section=sec, input=content):
            return False
        for key, (kind, _, _, default) in spec.table[sec].items():
            if key in spec.cfg[sec]:
                want = spec.cfg[sec][key]
                mon.count("option values compared")
                if (sec, key) in defaulted:
                    mon.count("values taken from [DEFAULT]")
                ok = key in got and same_value(kind, got[key], want)
                if not mon.check(ok, "parsed value is the given one", section=sec, option=key, got=got.get(key),
                                 got_type=str(type(got.get(key))), want=want, input=content):
                    return False
            else:
                mon.count("defaults of omitted options")
                g = got.get(key)
                ok = g is None or g == default or g == DOC_DEFAULTS.get((sec, key), g if g is None else None)
                if default is not None:
                    ok = g == default and type(g) is type(default)
                if not mon.check(ok, "omitted option has its documented default", section=sec, option=key, got=g,
                                 want=default, input=content):
                    return False
    return True


def to_default(rng, spec, texts):
    """Move some options to [DEFAULT] where this does not change their meaning anywhere"""
    default, moved = {}, set()
    shared = {"kt": ["ld", "fes"], "seed": ["ld", "particles", "birth-death"],
              "stride": ["birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"],
              "write-stride": ["trajectories", "histogram", "fes", "delta-f", "particle-distribution"],
              "fmt": ["trajectories", "histogram", "fes", "delta-f", "particle-distribution"]}
    for key, secs in shared.items():
        if rng.random() < 0.5:
            continue
        users = [s for s in secs if s in spec.cfg and key in spec.table[s]]
        if not users:
            continue
        src = str(rng.choice(users))
        value = spec.value(src, key)
        kind = spec.table[src][key][0]
        s = text(rng, kind, value)
        default[key] = s.replace("%", "%%") if key == "fmt" else s
        for u in users:  # sections that keep a value of their own override the default
            if key not in texts[u] or rng.random() < 0.5:
                texts[u].pop(key, None)
                spec.cfg[u][key] = value
                moved.add((u, key))
    return default, moved


def run_valid(rng, mon):
    for rep in range(30):
        spec = Spec(rng)
        texts = spec.texts()
        default, moved = ({}, set())
        if rng.random() < 0.5:
            default, moved = to_default(rng, spec, texts)
        content = layout(rng, texts, default)
        path = str(rng.choice(["input", "my input.txt", "in"]))
        with open(path, "w") as f:
            f.write(content)
        mon.count("executions")
        mon.count("valid inputs parsed")
        mon.sig("valid", sorted(spec.cfg), spec.n_dim, spec.ld_type, spec.mb, spec.init, sorted(moved),
                [sorted(o) for o in spec.cfg.values()])
        try:
            inp = parse(path)
        except Exception as e:
            mon.check(False, "valid input is accepted", error=repr(e), input=content)
            return
        if not judge_parsed(mon, spec, inp, moved, content):
            return
    # a few of them are run as well
    for rep in range(4):
        spec = Spec(rng, runnable=True)
        with sim.fresh_dir():
            put_coeffs(spec)
            if not sim.must_run(mon, layout(rng, spec.texts())):
                return
    mon.sample(dict(input=content))


def put_coeffs(spec):
    if spec.n_dim == 1:
        with open("pot.coeffs", "w") as f:
            f.write("#! FIELDS idx pot.coeffs index description\n1 0.2 1 s^1\n2 -4.0 2 s^2\n4 1.0 4 s^4\n")
    else:
        gen.write_coeffs("pot.coeffs", gen.WOLFE_QUAPP if spec.n_dim == 2 else gen.coeffs3d())


BAD = {
    F: ["abc", "1,5", "", "1.0.0", "1 2", "--3", "0x1p3", "1.5e", "two", "1/2", "(1)"],
    I: ["abc", "1.5", "1e3", "", "3.0", "1 2", "0x10", "five", "1,2", "1/2"],
    B: ["maybe", "2", "", "-1", "tru", "t", "yess", "none"],
    LF: ["a,b", "1;2", "1,,2", "1, 2,", "", ",", "1 2", "[1, 2]", "1, x", "x", "1, 2, 0.y"],
    LI: ["a", "1.5", "1,,2", "3,", "", "1 2", "4, 5.0", "1e3", "[1]", "2, x"],
}


def out_of_bounds(rng, kind, bound):
    if bound == POS:
        bad = [0, -1, -int(rng.integers(1, 1000))]
        if kind in (F, LF):
            bad += [-0.5, -1e-12, float("-inf"), 0.0, float("nan"), float("nan")]
    elif bound == NONNEG:
        bad = [-1, -0.001, -1e-12, float("-inf"), -1e6, float("nan")]
    else:  # 1..3
        bad = [0, -1, 4, 5, 17]
    v = bad[int(rng.integers(len(bad)))]
    return v


def corrupt(rng, spec, texts):
    """Break one thing. Returns (kind, section, option or None, what the message must name, detail)"""
    secs = [s for s in spec.cfg]
    kinds = ["missing option", "missing section", "not convertible", "out of bounds", "unknown choice",
             "state definitions", "bandwidth dimension"]
    for _ in range(200):
        kind = str(rng.choice(kinds, p=[0.15, 0.1, 0.3, 0.2, 0.13, 0.09, 0.03]))
        sec = str(rng.choice(secs))
        if kind == "missing option":
            keys = [k for k, o in spec.table[sec].items() if o[1] and k in texts[sec]]
            keys = [k for k in keys if not re.fullmatch(r"state\d+-m..", k)]
            if not keys:
                continue
            key = str(rng.choice(keys))
            del texts[sec][key]
            if key == "pos1":
                if rng.random() < 0.5:
                    for k in [k for k in texts[sec] if re.fullmatch(r"pos\d+", k)]:
                        del texts[sec][k]
            return kind, sec, key, [("coeffs", "coeffs-file") if key.startswith("coeffs") else key], None
        if kind == "missing section":
            deps = [s for s in ("ld", "potential", "particles") ]
            if "histogram" in texts:
                deps.append("trajectories")
            if "fes" in texts:
                deps.append("histogram")
            if "delta-f" in texts:
                deps.append("fes")
            gone = str(rng.choice(deps))
            del texts[gone]
            return kind, gone, None, [gone], None
        if kind == "not convertible":
            keys = [k for k in texts[sec] if spec.table[sec][k][0] in BAD]
            if not keys:
                continue
            key = str(rng.choice(keys))
            t = spec.table[sec][key][0]
            bad = str(BAD[t][int(rng.integers(len(BAD[t])))])
            if t in (LF, LI) and rng.random() < 0.5:  # one bad element among good ones
                parts = texts[sec][key].split(",")
                parts[int(rng.integers(len(parts)))] = str(rng.choice(["x", "", "1.2.3", "one", "2 3"]))
                bad = ",".join(parts)
            texts[sec][key] = bad
            return kind, sec, key, [key], bad
        if kind == "out of bounds":
            keys = [k for k in texts[sec] if spec.table[sec][k][2]]
            if not keys:
                continue
            key = str(rng.choice(keys))
            t, _, bound, _ = spec.table[sec][key]
            bad = out_of_bounds(rng, t, bound)
            bad = str(int(bad)) if t in (I, LI) else repr(float(bad))
            if t in (LF, LI):
                parts = texts[sec][key].split(",")
                parts[int(rng.integers(len(parts)))] = bad
                bad = ",".join(parts)
            texts[sec][key] = bad
            return kind, sec, key, [key], bad
        if kind == "unknown choice":
            keys = [k for k in ("type", "boundary-condition", "initial-distribution", "approximation-variant",
                                "correction-variant") if k in spec.table[sec]]
            if not keys:
                continue
            key = str(rng.choice(keys))
            if key.endswith("variant"):
                for k in ("approximation-variant", "correction-variant"):
                    texts[sec].pop(k, None)
            good = {"type": ["bussi-parinello"] if sec == "ld" else ["polynomial", "mueller-brown"],
                    "boundary-condition": ["reflective", "periodic"],
                    "initial-distribution": ["random-global", "random-pos", "fractions-pos"],
                    "approximation-variant": ["original", "add", "mult"],
                    "correction-variant": ["original", "additive", "multiplicative"]}[key]
            g = str(rng.choice(good))
            bad = str(rng.choice(["foo", g + "x", g[:-1] + "_", "x" + g, g + " " + g, "1"]))
            texts[sec][key] = bad
            return kind, sec, key, [key], bad
        if kind == "bandwidth dimension":
            if "birth-death" not in texts or spec.n_dim == 1:
                continue
            n = int(rng.choice([k for k in (1, 2, 3, 4) if k != spec.n_dim]))
            texts["birth-death"]["kernel-bandwidth"] = ", ".join(["0.4"] * n)
            return kind, "birth-death", "kernel-bandwidth", ["kernel-bandwidth"], n
        if kind == "state definitions":
            use = [s for s in ("delta-f", "particle-distribution") if s in texts]
            if not use:
                continue
            sec = str(rng.choice(use))
            how = str(rng.choice(["no max", "no min", "none", "dim of one", "dim of min", "dim of max", "one state",
                                  "dim of a state"]))
            j = int(rng.integers(1, spec.n_states + 1))
            key = f"state{j}-" + str(rng.choice(["min", "max"]))
            if how in ("no max", "no min"):
                # the last one, so that the numbers of bounds differ
                del texts[sec][f"state{spec.n_states}-{how[3:]}"]
            elif how == "none":
                for k in list(texts[sec]):
                    if k.startswith("state"):
                        del texts[sec][k]
            elif how == "one state":
                if sec != "delta-f":
                    continue
                for k in list(texts[sec]):
                    if k.startswith("state") and not k.startswith("state1-"):
                        del texts[sec][k]
            else:
                if how == "dim of one":
                    ks = [key]
                elif how == "dim of a state":
                    ks = [f"state{j}-min", f"state{j}-max"]
                elif how == "dim of min":
                    ks = [f"state{i+1}-min" for i in range(spec.n_states)]
                else:
                    ks = [f"state{i+1}-max" for i in range(spec.n_states)]
                for k in ks:
                    texts[sec][k] += ", 0.5"
            return kind, sec, None, [], how
    raise core.Inconclusive("no corruption found")


def names(message, word):
    if isinstance(word, tuple):
        return any(names(message, x) for x in word)
    return re.search(r"(?<![\w-])" + re.escape(word) + r"(?![\w-])", message) is not None


def judge_rejected(mon, kind, sec, key, words, detail, exit_code, message, steps, content):
    mon.count("invalid inputs")
    mon.count("invalid: " + kind)
    w = dict(kind=kind, section=sec, option=key, detail=detail, exit=exit_code, message=message[-400:], input=content)
    ok = mon.check(exit_code == 1, "invalid input ends with exit status 1", **w)
    ok = ok and mon.check(steps == 0, "no time step is made with invalid input", steps=steps, **w)
    ok = ok and mon.check(all(names(message, x) for x in words), "the error names the option or section", **w)
    return ok


def run_invalid(rng, mon):
    for rep in range(55):
        spec = Spec(rng, runnable=True)
        if rng.random() < 0.3 and "birth-death" in spec.cfg:
            spec.cfg["birth-death"]["approximation-variant"] = "original"
        texts = spec.texts()
        kind, sec, key, words, detail = corrupt(rng, spec, texts)
        content = layout(rng, texts, decorate=rng.random() < 0.3)
        mon.sig("invalid", sec, key, kind, detail if kind in ("state definitions", "not convertible") else None,
                spec.n_dim)
        with sim.fresh_dir():
            put_coeffs(spec)
            res = sim.run_main(content)
        mon.count("executions")
        steps = sum(1 for e in res.rec.events if e[0] == "ld")
        message = str(res.exc) if res.exc is not None else res.stderr
        if not judge_rejected(mon, kind, sec, key, words, detail, res.exit, message, steps, content):
            return
    mon.sample(dict(kind=kind, section=sec, option=key, detail=detail, message=message[-200:]))


def run_process(rng, mon):
    """The same in processes of their own: real exit status and stderr"""
    for rep in range(6):
        spec = Spec(rng, runnable=True)
        texts = spec.texts()
        with sim.fresh_dir():
            put_coeffs(spec)
            what = str(rng.choice(["valid", "no file", "invalid", "invalid", "invalid", "invalid"]))
            mon.count("executions")
            mon.count("programs run as process")
            mon.sig("process", what, sorted(texts))
            if what == "no file":
                p = sim.run_cli("not there")
                mon.check(p.returncode == 1 and "not there" in p.stderr, "missing input file is reported",
                          exit=p.returncode, stderr=p.stderr[-400:])
                continue
            if what == "invalid":
                kind, sec, key, words, detail = corrupt(rng, spec, texts)
            content = layout(rng, texts, decorate=False)
            with open("input", "w") as f:
                f.write(content)
            before = set(os.listdir("."))
            p = sim.run_cli("input")
            if what == "valid":
                mon.check(p.returncode == 0, "valid input ends with exit status 0", exit=p.returncode,
                          stderr=p.stderr[-600:], input=content)
                continue
            msg = p.stderr
            if "Traceback" in msg:
                msg = msg.strip().split("\n")[-1]
            if not judge_rejected(mon, kind, sec, key, words, detail, p.returncode, msg, 0, content):
                return
            written = [f for f in set(os.listdir(".")) - before if os.path.isfile(f)
                       and any(l.strip() and not l.startswith("#") for l in open(f, errors="replace"))]
            mon.check(not written, "no results are written with invalid input", files=written, input=content)


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(valid=run_valid, invalid=run_invalid, process=run_process)[case["mode"]](rng, mon)
