#!/usr/bin/env python3
"""Plant a bug in a scratch copy of /repo, confirm it, and keep it in seeded/<id>/. Not a check.

  tools/mkbug.py SPEC.py [--keep-anyway]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source; exits nonzero or
raises when the bug shows) and optionally MACRO (demo is macro-using code: run as a module under mcpyrate).
The scratch copy is bind-mounted over /repo in a private mount namespace, so builds, tests and checks see it there.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(scratch, cmd, cwd=None):
    return subprocess.run(["unshare", "-m", "-n", "bash", "-c", f"ip link set lo up; mount --bind {scratch} /repo && cd {cwd or '/repo'} && {cmd}"],
                          capture_output=True, text=True)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = os.path.join(HERE, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    base = tempfile.mkdtemp(prefix="mkbug.", dir="/tmp")
    try:
        s = base + "/repo"
        shutil.copytree("/repo", s, symlinks=True)
        for f, old, new in g["EDITS"]:
            t = open(f"{s}/{f}").read()
            assert t.count(old) == 1, f"{f}: old text occurs {t.count(old)} times: {old!r}"
            open(f"{s}/{f}", "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", s, "diff"], capture_output=True, text=True).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/meta.json", "w").write(json.dumps(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), indent=1) + "\n")
        name = "demo_macro.py" if g.get("MACRO") else "demo_plain.py"
        open(f"{d}/{name}", "w").write(g["DEMO"].lstrip("\n"))
        run = ('-c "import sys; sys.path.insert(0, \\"$D\\"); import mcpyrate.activate; import demo_macro"' if g.get("MACRO") else '"$D/demo_plain.py"')
        open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: the bug shows
D=$(cd "$(dirname "$0")" && pwd)
C=$(mktemp -d) || exit 1
trap 'rm -rf "$C"' EXIT
export PYTHONPYCACHEPREFIX="$C" PYTHONPATH=/repo
cd /repo
timeout 200 /opt/venv/bin/python {run}
''')
        ok = True
        r = subprocess.run(["bash", f"{d}/demo.sh"], capture_output=True, text=True)
        print("demo on clean tree:", r.returncode)
        ok &= r.returncode == 0 or print(r.stdout[-1500:], r.stderr[-1500:])
        r = ns(s, f"bash {d}/demo.sh")
        print("demo with bug:", r.returncode, (r.stderr.strip().splitlines() or [""])[-1][:200])
        ok = ok and r.returncode != 0
        r = ns(s, "bash /opt/vp/build.sh")
        print("build:", r.returncode)
        ok = ok and r.returncode == 0
        if ok:
            r = ns(s, f"bash /opt/vp/test.sh {base}/o.json")
            print("tests:", r.stdout.strip().splitlines()[-1])
            res = json.load(open(f"{base}/o.json"))
            base_pass = set(json.load(open("/opt/vp/BASELINE.json"))["pass"]) if "pass" in json.load(open("/opt/vp/BASELINE.json")) else None
            ok = ", 0 failed" in r.stdout.strip().splitlines()[-1] and "3259 passed" in r.stdout
        print("COUNTS" if ok else "DOES NOT COUNT")
        if ok:
            for c in sys.argv[2:] or [g["PROPERTY"]]:
                r = ns(s, f"VP_EVIDENCE={base}/ev VERIF_SEED=1 VERIF_TIER=quick bash run.sh {c} quick", HERE)
                print(c, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED", "|", " ".join(r.stdout.split())[:300])
                if r.returncode not in (0, 1):
                    print(r.stderr[-1500:])
        else:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(base)


main()
