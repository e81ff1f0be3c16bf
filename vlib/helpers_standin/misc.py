"""Stand-in for the bdld/helpers submodule (only used if neither it nor the wheel exist)"""
import os
import numpy as np
from .plumed_header import PlumedHeader


def backup_if_exists(name):
    if os.path.exists(name):
        d, f = os.path.split(name)
        num = 0
        while os.path.exists(os.path.join(d, f"bck.{num}.{f}")):
            num += 1
        os.rename(name, os.path.join(d, f"bck.{num}.{f}"))


def initialize_file(filename, fields=None, constants=None, comment_delim=None, overwrite=False):
    if not overwrite:
        backup_if_exists(filename)
    with open(filename, "w") as f:
        if fields:
            f.write(str(PlumedHeader(fields, constants, comment_delim)) + "\n")


def write_2d_sliced_to_file(filename, data, nbins, fmt="%.18e", header=None):
    data = data.reshape(*nbins, len(data[0]))
    with open(filename, "w") as out:
        if header:
            out.write(str(header) + "\n")
        for i, row in enumerate(data):
            if i:
                out.write("\n")
            np.savetxt(out, row, comments="", fmt=fmt, delimiter=" ", newline="\n")


def make_ordinal(n):
    n = int(n)
    suffix = ["th", "st", "nd", "rd", "th"][min(n % 10, 4)]
    if 11 <= (n % 100) <= 13:
        suffix = "th"
    return str(n) + suffix
