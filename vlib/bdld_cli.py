"""Run `python -m bdld ARGS` of the repository under test in a process of its own"""
import os
import runpy
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot  # noqa: E402

boot.install()
sys.argv = ["bdld"] + sys.argv[1:]
runpy.run_module("bdld", run_name="__main__", alter_sys=False)
