#!/bin/bash
# nothing to build: checks import /repo's working tree directly; verify that the interpreter and Hypothesis are usable
cd "$(dirname "$0")" || exit 1
PYTHONPATH="${E2CNN_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python -c "
import vp.boot, hypothesis, torch, numpy, e2cnn
print('hypothesis', hypothesis.__version__, 'torch', torch.__version__, e2cnn.__file__)"
