#!/bin/bash
# nothing to build: checks import the code of /repo directly; verify that the monitors can load it
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vlib import boot
boot.install()
import bdld.main
print('ok')"
