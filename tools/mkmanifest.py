"""Write MANIFEST.json for every property that has a module in props/"""
import importlib
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitoring: trajectories of the integrator against a reference step, inferred noise tested online",
    "C02": "runtime monitoring: trajectories of the integrator against a reference step, inferred noise tested online",
    "C03": "runtime monitoring: positions before/after boundary handling against an exact folding model",
    "C04": "runtime monitoring: differential oracle for energies and forces, finite differences, operand guards",
    "C05": "runtime monitoring: invariant monitor on the walker ensemble after every action",
    "C06": "runtime monitoring: rates of live ensembles against an interval-valued reference",
    "C07": "runtime monitoring: trace replay of birth-death events and exact outcome distributions",
    "C08": "runtime monitoring: accounting monitor (conservation) of attempts and events",
    "C09": "runtime monitoring: densities and smoothing against an interval-valued reference",
    "C10": "runtime monitoring: offline checker of trajectory files against recorded states",
    "C11": "runtime monitoring: conservation monitor of histogram counts against recorded states",
    "C12": "runtime monitoring: offline checker of free energy surfaces against recorded counts",
    "C13": "runtime monitoring: offline checker of free energy differences against recorded surfaces",
    "C14": "runtime monitoring: offline checker of state populations against recorded states",
    "C15": "runtime monitoring: trace comparison of repeated and perturbed runs",
    "C16": "runtime monitoring: crash and fault injection with file system monitor",
    "C17": "runtime monitoring: generated and corrupted inputs against an independent option table",
    "C18": "runtime monitoring: initial ensembles of program runs against exact counts and uniformity tests",
    "C19": "runtime monitoring: grid operations against a reference model, operand guards",
    "C20": "runtime monitoring: ensemble averages of long runs against exact integrals",
    "C21": "runtime monitoring: recorded program runs against an independent re-simulation from the input file",
    "C22": "runtime monitoring: figures intercepted when saved, against recorded counts; runs with and without plots",
}
NOTE = ("Holds on every execution explored: the real code of /repo runs under generated workloads and independent "
        "oracles judge every observed state; nothing is claimed beyond the explored inputs. Trusts numpy/scipy and "
        "the reference models in vlib/.")


def main():
    checks = []
    for f in sorted(os.listdir(os.path.join(VERIF, "props"))):
        m = re.fullmatch(r"c(\d\d)\.py", f)
        if not m:
            continue
        p = "C" + m.group(1)
        text = open(os.path.join(VERIF, "props", f)).read()
        a = re.search(r"^ASSUMPTIONS = (\[.*?\])$", text, re.M | re.S)
        assume = eval(a.group(1)) if a else []
        note = NOTE + (" Assumes: " + "; ".join(assume) + "." if assume else "")
        checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", technique=TECH[p], level="exploration", level_note=note))
    have = {c["property"] for c in checks}
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    na = [dict(property=p, reason="check not built yet") for p in props if p not in have]
    man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: monitors wrap the action classes from outside (vlib/sim.py). "
                     "/repo's fix commits are listed in known_findings.json.")
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")


main()
