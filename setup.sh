#!/bin/bash
# nothing to build: the checks re-read /repo's sources on every run; verify the tools are there
cd "$(dirname "$0")" || exit 1
mkdir -p out evidence
python3-vt -c "import z3, numpy" && /opt/venv/bin/python -c "import numpy, scipy, sklearn"
