"""Decides one property: spreads its searches over processes, collects results,
writes the evidence file and the replay file.

usage: driver.py PROPERTY [quick|thorough]
       driver.py --replay FILE
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself failed (no verdict).
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import core  # noqa: E402

core.setup_path()
PY = sys.executable
WORKER = os.path.join(HERE, "pbt", "worker.py")
CASE_LIMIT = 240.0
LEVEL = "exploration"


def child_env(scratch, extra):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        GE_PYC=os.path.join(scratch, "pyc"),
        TMPDIR=os.path.join(scratch, "tmp"),
        SPARK_LOCAL_DIRS=os.path.join(scratch, "tmp"),
        PYSPARK_PYTHON=PY,
        PYSPARK_DRIVER_PYTHON=PY,
        SPARK_LOCAL_IP="127.0.0.1",
        SPARK_LOCAL_HOSTNAME="localhost",
        PYSPARK_SUBMIT_ARGS="--conf spark.ui.enabled=false "
        "--conf spark.ui.showConsoleProgress=false "
        "--conf spark.driver.memory=2g pyspark-shell",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        # reading or writing beyond the end of an array is an error
        NUMBA_BOUNDSCHECK="1",
        PYTHONPATH=core.SRC,
        PYTHONWARNINGS="ignore",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
    )
    env.pop("SPARK_HOME", None)
    env.pop("NUMBA_DISABLE_JIT", None)
    if os.environ.get("GE_COVER"):
        env["NUMBA_DISABLE_JIT"] = "1"
    env.update(extra)
    return env


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.wait(timeout=10)
    except Exception:
        pass


def run_replay(path, scratch, limit, extra):
    p = subprocess.Popen(
        [PY, WORKER, "replay", path],
        env=child_env(scratch, extra),
        cwd=scratch,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        start_new_session=True,
    )
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", ""


def write_replay(prop, seed, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, seed=seed, **rec)
    path = os.path.join(
        d, "%s-%s-%s.json" % (prop, rec["target"], core.digest(rec["case"]))
    )
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path


def main():
    if sys.argv[1] == "--replay":
        scratch = tempfile.mkdtemp(prefix="ge-verif-")
        for d in ("pyc", "tmp", "hyp"):
            os.mkdir(os.path.join(scratch, d))
        rec = json.load(open(sys.argv[2]))
        mod = importlib.import_module("pbt.props." + rec["property"])
        extra = {}
        for t in core.targets(mod):
            if t.name == rec["target"]:
                extra = t.env
        rc, out = run_replay(os.path.abspath(sys.argv[2]), scratch, CASE_LIMIT, extra)
        print(out, end="")
        shutil.rmtree(scratch, ignore_errors=True)
        if rc == 0:
            return 0
        if rc == 1 or rc == "hang" or (isinstance(rc, int) and rc < 0):
            print(
                "VIOLATION property=%s replay=%s" % (rec["property"], sys.argv[2])
            )
            return 1
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("ONLY", "")
    t0 = time.time()
    budget = 780.0 if tier == "quick" else float(os.environ.get("THOROUGH_S", "3000"))
    scratch = tempfile.mkdtemp(prefix="ge-verif-")
    for d in ("pyc", "tmp", "hyp"):
        os.mkdir(os.path.join(scratch, d))
    mod = importlib.import_module("pbt.props." + prop)
    assert mod.PROP == prop
    jobs = []
    groups = []
    for t in core.targets(mod):
        if only and only not in t.name:
            continue
        if t.group not in groups:
            groups.append(t.group)
    for g in groups:
        ts = [t for t in core.targets(mod) if t.group == g]
        n = max((t.tshards if tier == "thorough" else t.shards) for t in ts)
        extra = {}
        for t in ts:
            extra.update(t.env)
        for s in range(n):
            jobs.append((g, s, extra))
    jobs.sort(key=lambda j: j[1])
    maxproc = int(os.environ.get("VERIF_JOBS", getattr(mod, "JOBS", 8)))
    running = []
    results = []
    violations = []
    errors = []
    pending = list(enumerate(jobs))
    deadline = t0 + budget
    stop = False
    while pending or running:
        while pending and len(running) < maxproc and not stop:
            k, (g, s, extra) = pending.pop(0)
            spec = dict(
                property=prop,
                group=g,
                shard=s,
                seed=seed,
                tier=tier,
                out=os.path.join(scratch, "out%d.json" % k),
                current=os.path.join(scratch, "cur%d" % k),
                deadline=deadline - 60,
            )
            sp = os.path.join(scratch, "spec%d.json" % k)
            json.dump(spec, open(sp, "w"))
            log = open(os.path.join(scratch, "log%d" % k), "w")
            p = subprocess.Popen(
                [PY, WORKER, "run", sp],
                env=child_env(scratch, extra),
                cwd=scratch,
                stdout=log,
                stderr=subprocess.STDOUT,
                start_new_session=True,
            )
            running.append((p, k, spec, extra, time.time()))
        if stop:
            pending = []
        time.sleep(0.1)
        still = []
        for item in running:
            p, k, spec, extra, started = item
            rc = p.poll()
            hung = False
            if rc is None:
                try:
                    age = time.time() - os.path.getmtime(spec["current"])
                except OSError:
                    age = 0.0
                if age > CASE_LIMIT:
                    hung = True
                elif time.time() > deadline + 30:
                    kill(p)
                    errors.append(
                        "worker %s/%s ran out of time" % (spec["group"], spec["shard"])
                    )
                    continue
                elif stop:
                    kill(p)
                    continue
                else:
                    still.append(item)
                    continue
            if hung:
                kill(p)
            else:
                kill(p)  # whatever it left behind in its process group
            if os.path.exists(spec["out"]):
                r = json.load(open(spec["out"]))
                results.append(r)
                if r["violations"]:
                    violations.extend(r["violations"])
                    stop = True
                for e in r["errors"]:
                    errors.append(json.dumps(e)[:4000])
                    stop = True
                continue
            # no result: the process crashed or hung while running a case
            tail = open(os.path.join(scratch, "log%d" % k)).read()[-2000:]
            try:
                name, case = open(spec["current"]).read().split("\n", 1)
                rec = {"target": name, "case": json.loads(case)}
            except Exception:
                errors.append("worker died (rc %s) before any case: %s" % (rc, tail))
                stop = True
                continue
            path = os.path.join(scratch, "crash%d.json" % k)
            json.dump(dict(property=prop, **rec), open(path, "w"))
            rc2, out = run_replay(path, scratch, CASE_LIMIT, extra)
            if rc2 == "hang" or rc2 == 1 or (isinstance(rc2, int) and rc2 < 0):
                rec["message"] = "the process %s on this case (exit %s)" % (
                    "did not finish" if rc2 == "hang" else "failed",
                    rc2,
                )
                violations.append(rec)
            else:
                errors.append("worker died (rc %s), not reproduced: %s" % (rc, tail))
            stop = True
        running = still

    # known findings: replay each listed case
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for ent in json.load(open(kf)).get("findings", []):
            if ent["property"] != prop or ent.get("status") != "known":
                continue
            path = os.path.join(scratch, "known.json")
            json.dump(
                dict(property=prop, target=ent["target"], case=ent["case"]),
                open(path, "w"),
            )
            extra = {}
            for t in core.targets(mod):
                if t.name == ent["target"]:
                    extra = t.env
            rc, out = run_replay(path, scratch, CASE_LIMIT, extra)
            if rc == 1:
                known.append(ent["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, ent["what"]))
            elif rc == 0:
                print("note: known finding %s no longer fails" % ent["id"])
            else:
                errors.append("known finding %s: %s %s" % (ent["id"], rc, out[-500:]))

    seen = set()
    tags = {}
    samples = []
    per = {}
    ev = 0
    for r in results:
        ev += r["evaluations"]
        seen.update(r["seen"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        samples.extend(r["samples"][:3])
        for k, v in r["per_target"].items():
            d = per.setdefault(k, {"evaluations": 0, "seconds": 0.0})
            d["evaluations"] += v["evaluations"]
            d["seconds"] = round(d["seconds"] + v["seconds"], 1)
    wall = time.time() - t0
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(seen),
            "rule": mod.RULE,
            "samples": samples[:12],
            "classes": dict(sorted(tags.items())),
            "per_search": per,
            "processes": len(results),
            "cut_short_by_time": any(r["truncated"] for r in results),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "known_findings_reproduced": known,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    rc = 0
    if violations:
        violations.sort(key=lambda v: (len(core.key(v["case"])), core.key(v["case"])))
        path = write_replay(prop, seed, violations[0])
        print("%s: %s" % (violations[0]["target"], violations[0]["message"]))
        print("case: " + core.key(violations[0]["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        for e in errors:
            sys.stderr.write(e.replace("\\n", "\n") + "\n")
        rc = 2
    else:
        print(
            "%s held: %d cases, %d distinct non-trivial, %.0f s"
            % (prop, ev, len(seen), wall)
        )
    if os.environ.get("KEEP"):
        print("scratch", scratch)
    else:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
