"""Runs the searches of one group of targets in one process.

usage: worker.py run SPEC.json   (SPEC: property, targets, shard, seed, tier, out)
       worker.py replay FILE.json
"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import core  # noqa: E402

core.setup_path()


class Stop(BaseException):
    pass


def load(prop):
    return importlib.import_module("pbt.props." + prop)


def find_target(prop, name):
    for t in core.targets(load(prop)):
        if t.name == name:
            return t
    raise core.HarnessError("no target " + name)


def search(target, n, seed, spec, res):
    sys.path.append(core.HYP_PATH)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = {"fails": [], "first": None, "n": 0, "err": None}
    seen = res["seen"]
    cur = spec["current"]
    deadline = spec["deadline"]

    def one(case):
        with open(cur, "w") as fh:
            fh.write(target.name + "\n" + json.dumps(case))
        core.run_check(target, case)

    def body(case):
        now = time.time()
        if st["first"] is None:
            if now > deadline:
                res["truncated"] = True
                raise Stop()
            st["n"] += 1
            res["evaluations"] += 1
            nt, tags = target.classify(case)
            for t in tags:
                res["tags"][t] = res["tags"].get(t, 0) + 1
            if nt:
                h = core.digest([target.name, case])
                if h not in seen:
                    seen[h] = 1
                    k = len(core.key(case))
                    if len(res["samples"]) < 6 and (k < 1500):
                        res["samples"].append({"target": target.name, "case": case})
        elif now > st["first"] + target.shrink_s:
            raise Stop()
        try:
            one(case)
        except core.Violation as exc:
            if st["first"] is None:
                st["first"] = time.time()
            st["fails"].append((len(core.key(case)), core.key(case), case, str(exc)))
            raise
        except core.Inconclusive as exc:
            t = "undecided: stand-in lacks %s" % exc
            res["tags"][t] = res["tags"].get(t, 0) + 1
        except core.HarnessError as exc:
            st["err"] = {"case": case, "error": str(exc), "target": target.name}
            raise Stop()

    try:
        for case in target.examples:
            body(json.loads(json.dumps(case)))
        if n > 0:
            test = given(target.strategy())(body)
            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
            )(test)
            test = hypothesis.seed(seed)(test)
            test()
    except Stop:
        pass
    except core.Violation:
        pass
    except BaseException as exc:
        if not st["fails"]:
            res["errors"].append(
                {
                    "target": target.name,
                    "error": "%s: %s\n" % (type(exc).__name__, str(exc)[:500]) + "".join(
                        traceback.format_tb(exc.__traceback__)
                    )[-2500:],
                }
            )
    if st["err"]:
        res["errors"].append(st["err"])
    if st["fails"]:
        st["fails"].sort(key=lambda x: (x[0], x[1]))
        _, _, case, msg = st["fails"][0]
        res["violations"].append(
            {
                "target": target.name,
                "case": case,
                "message": msg,
                "failing_cases_seen": len(st["fails"]),
            }
        )


def main():
    mode = sys.argv[1]
    if mode == "replay":
        rec = json.load(open(sys.argv[2]))
        t = find_target(rec["property"], rec["target"])
        try:
            core.run_check(t, rec["case"])
        except core.Violation as exc:
            print("FAILS: " + str(exc))
            return 1
        except core.Inconclusive as exc:
            print("UNDECIDED: stand-in lacks %s" % exc)
            return 0
        except core.HarnessError as exc:
            print("HARNESS ERROR: " + str(exc))
            return 2
        print("PASSES")
        return 0
    spec = json.load(open(sys.argv[2]))
    res = {
        "evaluations": 0,
        "seen": {},
        "tags": {},
        "samples": [],
        "violations": [],
        "errors": [],
        "truncated": False,
        "per_target": {},
    }
    t0 = time.time()
    try:
        prop = load(spec["property"])
        for t in core.targets(prop):
            if t.group != spec["group"] or spec["shard"] >= t.tshards and spec["tier"] == "thorough":
                continue
            nsh = t.tshards if spec["tier"] == "thorough" else t.shards
            if spec["shard"] >= nsh:
                continue
            n = t.thorough if spec["tier"] == "thorough" else t.quick
            n = -(-n // nsh)
            before = res["evaluations"]
            t1 = time.time()
            ex = t.examples
            if spec["shard"] > 0:
                t.examples = []
            search(
                t,
                n,
                core.derive_seed(spec["seed"], spec["property"], t.name, spec["shard"]),
                spec,
                res,
            )
            t.examples = ex
            res["per_target"][t.name] = {
                "evaluations": res["evaluations"] - before,
                "seconds": round(time.time() - t1, 1),
            }
            if res["errors"] or res["violations"]:
                break
        fin = getattr(prop, "finish", None)
        if fin:
            fin()
    except BaseException as exc:
        res["errors"].append(
            {
                "target": "(worker)",
                "error": "".join(
                    traceback.format_exception(type(exc), exc, exc.__traceback__)
                )[-3000:],
            }
        )
    res["seconds"] = time.time() - t0
    res["seen"] = list(res["seen"])
    tmp = spec["out"] + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(res, fh)
    os.rename(tmp, spec["out"])
    return 0


def covered_main():
    """main() under line and branch measurement (tools/cover.sh; never by a check)"""
    import coverage

    cov = coverage.Coverage(
        data_file=os.path.join(os.environ["GE_COVER"], "cov"),
        data_suffix=True,
        branch=True,
        source=[core.SRC],
    )
    cov.start()
    rc = main()
    cov.stop()
    cov.save()
    return rc


if __name__ == "__main__":
    rc = covered_main() if os.environ.get("GE_COVER") else main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
