#!/bin/bash
# bash run.sh C01 [quick|thorough]      run one check
# bash run.sh --replay FILE             re-run one saved failing case
# Everything is imported straight from /repo's working tree, with a bytecode cache of its own
# (mcpyrate's cache check misses indirect macro dependencies, so bytecode is never reused).
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONUNBUFFERED=1 PYTHONIOENCODING=utf-8
unset PYTHONDONTWRITEBYTECODE PYTHONPATH PYTHONSTARTUP
CACHE=$(mktemp -d "${TMPDIR:-/tmp}/vp-cache.XXXXXX") || exit 3
trap 'rm -rf "$CACHE"' EXIT
export PYTHONPYCACHEPREFIX="$CACHE/pyc" VP_SCRATCH="$CACHE"
mkdir "$CACHE/pyc"
/opt/venv/bin/python -m vp.main "$@"
