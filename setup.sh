#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly. Verify that the tools are there.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import vp, hypothesis, unpythonic, mcpyrate; print("hypothesis", hypothesis.__version__, "unpythonic from", unpythonic.__file__)'
