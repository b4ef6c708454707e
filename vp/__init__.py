import os
import sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # at the end: only for hypothesis and its dependencies
REPO = os.environ.get("VP_REPO", "/repo")  # only tools/mutate.py sets this; the registered checks run on /repo
if REPO not in sys.path:
    sys.path.insert(0, REPO)
