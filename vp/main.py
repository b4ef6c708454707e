"""Entry point: python -m vp.main C01 [quick|thorough]  |  --replay FILE"""
import importlib
import json
import os
import sys
import time
import traceback

import vp  # noqa: F401  (sets up sys.path)
from vp import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VP_EVIDENCE", os.path.join(HERE, "evidence"))  # set only by tools/mutate.py


def load(pid):
    mod = importlib.import_module("checks." + pid.lower())
    where = sys.modules.get("unpythonic")
    if where is None or not where.__file__.startswith(vp.REPO + "/"):
        raise core.HarnessError("unpythonic was not imported from /repo")
    return mod


def find_suite(mod, name):
    for s in mod.SUITES:
        if s.name == name:
            return s
    raise core.HarnessError(f"no suite {name}")


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    suite = find_suite(mod, d["suite"])
    if d.get("kind") == "suite-run":
        import tempfile
        with tempfile.TemporaryDirectory() as scratch:
            job = (suite, d["shard"], d["seed"], d["n"])
            for _, res, note in core.run_jobs([job], 1, scratch, time.monotonic() + 600, 5):
                if note or (res and res.failure):
                    print(f"VIOLATION property={d['property']} replay={path}")
                    return 1
        print("replay: holds")
        return 0
    kind, why = core.confirm(suite, d["case"], os.environ.get("VP_SCRATCH", "/tmp"))
    if kind == "ok":
        print("replay: holds")
        return 0
    if kind == "error":
        print("replay: harness error\n" + why)
        return 3
    print(why)
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [d for d in json.load(f)["findings"] if d["property"] == pid]


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2].split(",") if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    scratch = os.path.join(os.environ.get("VP_SCRATCH", "/tmp"), "jobs")
    os.makedirs(scratch, exist_ok=True)
    mod = load(pid)
    quick = tier == "quick"
    deadline = t0 + float(os.environ.get("VP_BUDGET", "400" if quick else "3000"))
    ncpu = int(os.environ.get("VP_JOBS", os.cpu_count() or 4))
    jobs = []
    for s in mod.SUITES:
        if only and s.name not in only:
            continue
        total = s.quick if quick else s.thorough
        shards = s.shards if quick else max(s.shards, s.thorough_shards)
        for k in range(shards):
            jobs.append((s, k, core.stable_seed(seed, pid, s.name, k), max(1, total // shards)))
    # one shard of each suite first, the large ones early
    jobs.sort(key=lambda j: j[1])
    for k in known_findings(pid):
        demo = getattr(mod, "KNOWN", {}).get(k["id"])
        still = demo() if demo else True
        if still:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    suites = {}
    errors, violations, inconclusive = [], [], []
    stop = False
    stream = core.run_jobs(jobs, ncpu, scratch, deadline, 30 if quick else 120)
    for job, res, note in stream:
        suite, shard, sseed, n = job
        st = suites.setdefault(suite.name, dict(evaluations=0, hashes=set(), labels={}, samples=[], seconds=0.0, budget_hit=False))
        if res is not None:
            st["evaluations"] += res.evaluations
            st["hashes"] |= res.hashes
            for k, v in res.labels.items():
                st["labels"][k] = st["labels"].get(k, 0) + v
            st["samples"] += res.samples[:max(0, 3 - len(st["samples"]))]
            st["seconds"] += res.seconds
            st["budget_hit"] |= res.budget_hit
            if res.error:
                errors.append(f"{suite.name}: {res.error}")
        text = None
        if res is not None and res.failure:
            text = res.failure[0]
        elif note and note[1]:
            text = note[1]
        elif note:
            errors.append(f"{suite.name}: worker {note[0]} outside any case")
        if text is not None:
            if any(v[0] is suite for v in violations):
                continue
            kind, why = core.confirm(suite, text, scratch)
            record = dict(property=pid, suite=suite.name, kind="case", case=text, why=why)
            if kind == "error":
                errors.append(f"{suite.name}: {why}")
                continue
            if kind == "ok" and res is not None and res.failure:
                # depends on what ran before it in the process: the reproducible unit is the whole run
                again = list(core.run_jobs([(suite, shard, sseed, n)], 1, scratch, time.monotonic() + 240, 2))
                if again and (again[0][2] or (again[0][1] and again[0][1].failure)):
                    kind = "fail"
                    record = dict(property=pid, suite=suite.name, kind="suite-run", shard=shard, seed=sseed, n=n,
                                  case=text, why=res.failure[1])
            if kind == "ok":
                inconclusive.append(f"{suite.name}: {note[0] if note else 'failure'} did not reproduce: {text[:300]}")
                continue
            os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
            rp = os.path.join(EVIDENCE, "replay", f"{pid}-{suite.name}.json")
            with open(rp, "w") as f:
                json.dump(record, f, indent=1)
            violations.append((suite, rp, why if kind != "ok" else "", text))
            print(f"{suite.name}: {record['why']}\n  case: {text[:1200]}", flush=True)
            print(f"VIOLATION property={pid} replay={rp}", flush=True)
            if quick:
                # one confirmed violation settles the check; the rest of the search is not needed
                stop = True
        if stop:
            stream.close()
            break
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(s["evaluations"] for s in suites.values()),
                  distinct_nontrivial=sum(len(s["hashes"]) for s in suites.values()),
                  rule=mod.RULE,
                  samples=[f"{name}: {x}" for name, s in suites.items() for x in s["samples"]],
                  suites={name: dict(evaluations=s["evaluations"], distinct_nontrivial=len(s["hashes"]),
                                     labels=dict(sorted(s["labels"].items(), key=lambda kv: str(kv[0]))), cpu_s=round(s["seconds"], 2),
                                     budget_hit=s["budget_hit"]) for name, s in suites.items()},
                  inconclusive=inconclusive),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.monotonic() - t0, 2), violations=len(violations))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print(f"{pid} {tier}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violations, {ev['wall_s']} s")
    for x in inconclusive:
        print("inconclusive:", x)
    if violations:
        return 1
    if errors:
        print("HARNESS ERRORS:\n" + "\n".join(errors[:5]), file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
