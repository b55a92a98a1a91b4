#!/bin/bash
# builds the C++ extensions of /repo's current tree once (checks rebuild them whenever the sources change) and tries the tools
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p build evidence
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'lib'); import pybbn; print(pybbn.build())" || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
exit 0
