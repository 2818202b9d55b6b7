"""Orchestrator and worker: generated-input search with Hypothesis, sharded over processes."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

from . import core

VERIF = core.VERIF
WORKERS = int(os.environ.get("MGV_WORKERS", "8"))


def load_check(pid):
    return importlib.import_module(f"mgv.checks.{pid.lower()}")


def setup_imports():
    """Make the code under test (from the working tree, never from stale bytecode) and
    Hypothesis importable."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.environ["MGV_BASE"], "pycache")
    for cand in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages", os.path.join(VERIF, ".deps")):
        if os.path.isdir(os.path.join(cand, "hypothesis")):
            sys.path.append(cand)
            break
    sys.path.insert(0, core.REPO)
    import modulegraph2
    import modulegraph2.__main__  # noqa: F401
    assert os.path.realpath(modulegraph2.__file__).startswith(os.path.realpath(core.REPO) + os.sep), modulegraph2.__file__


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as fp:
        data = json.load(fp)
    return [f for f in data["findings"] if f["property"] == pid and f["status"] == "known"]


class _Stop(BaseException):
    pass


def worker(args):
    setup_imports()
    check = load_check(args.property)
    base = args.base
    known = {f["signature"] for f in known_findings(args.property)}
    out = {
        "evaluations": 0, "labels": {}, "keys": [], "samples": [], "violation": None,
        "errors": [], "inconclusive": 0, "known_hits": {}, "stopped": None,
    }
    keys = set()
    verdicts = {}
    t0 = time.monotonic()
    state = {"best": None, "t_fail": None, "n_fail": 0, "slow": False}

    def evaluate(case, origin):
        left = args.time_cap + 240 - (time.monotonic() - t0)
        if state["t_fail"] is None:
            res = core.run_case(check, case, base, wall=max(1, left))
        else:
            # shrinking: candidates that take long are not worth it
            res = core.run_case(check, case, base, wall=max(1, min(left, 200 if state["slow"] else 20)), recount=state["slow"])
        out["evaluations"] += 1
        for k, v in res["labels"].items():
            out["labels"][k] = out["labels"].get(k, 0) + v
        out["labels"]["status:" + res["status"]] = out["labels"].get("status:" + res["status"], 0) + 1
        if res["nontrivial"]:
            k = core.case_key(case)
            if k not in keys:
                keys.add(k)
                if len(out["samples"]) < 2 and len(json.dumps(case)) < 3000:
                    out["samples"].append(case)
        if res["status"] in ("timeout", "died"):
            out["inconclusive"] += 1
            if len(out["errors"]) < 5:
                out["errors"].append({"kind": res["status"], "msg": res.get("msg"), "case": case})
        elif res["status"] == "error":
            raise _HarnessError(res["msg"], case)
        elif res["status"] == "violation":
            if res["sig"] in known:
                out["known_hits"][res["sig"]] = out["known_hits"].get(res["sig"], 0) + 1
                return
            size = len(json.dumps(case))
            if state["best"] is None or size < state["best"][0]:
                state["best"] = (size, case, res["sig"], res["msg"], origin)
            if state["t_fail"] is None:
                state["t_fail"] = time.monotonic()
                state["slow"] = res["sig"] == "no-termination"
            state["n_fail"] += 1
            raise AssertionError(res["sig"])

    class _HarnessError(BaseException):
        def __init__(self, msg, case):
            super().__init__(msg)
            self.msg, self.case = msg, case

    try:
        try:
            cases = list(getattr(check, "corpus", lambda: [])())
            for i, case in enumerate(cases):
                if i % args.workers == args.index:
                    out["labels"]["corpus"] = out["labels"].get("corpus", 0) + 1
                    evaluate(case, "corpus")
        except AssertionError:
            raise _Stop()
        if args.examples > 0 and hasattr(check, "strategy"):
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            @hypothesis.seed(args.seed)
            @settings(
                max_examples=args.examples, database=None, deadline=None,
                phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
            )
            @given(check.strategy())
            def test(case):
                now = time.monotonic()
                if state["t_fail"] is not None and (
                    now - state["t_fail"] > args.shrink_time or out["evaluations"] > 200000
                ):
                    raise _Stop()
                if state["t_fail"] is None and now - t0 > args.time_cap:
                    out["stopped"] = "time cap"
                    raise _Stop()
                if os.path.exists(os.path.join(base, "..", "STOP")) and state["t_fail"] is None:
                    out["stopped"] = "another worker found a violation"
                    raise _Stop()
                text = json.dumps(case)
                if text in verdicts:
                    # Hypothesis repeats itself, the verdict is a function of the case
                    out["labels"]["repeated"] = out["labels"].get("repeated", 0) + 1
                    if verdicts[text]:
                        raise AssertionError(verdicts[text])
                    return
                verdicts[text] = None
                try:
                    evaluate(json.loads(text), "generated")
                except AssertionError as exc:
                    verdicts[text] = str(exc)
                    raise

            try:
                test()
            except AssertionError:
                pass
            except hypothesis.errors.HypothesisException:
                if state["best"] is None:
                    raise
        if state["best"] is not None:
            raise _Stop()
    except _Stop:
        pass
    except _HarnessError as exc:
        out["errors"].append({"kind": "harness", "msg": exc.msg, "case": exc.case})
        out["harness_error"] = True
    except BaseException as exc:
        out["errors"].append({"kind": "harness", "msg": "".join(traceback.format_exception(exc)), "case": None})
        out["harness_error"] = True
    if state["best"] is not None:
        _, case, sig, msg, origin = state["best"]
        out["violation"] = {"case": case, "sig": sig, "msg": msg, "origin": origin}
        open(os.path.join(base, "..", "STOP"), "w").close()
    out["keys"] = sorted(keys)
    out["wall"] = time.monotonic() - t0
    with open(args.out, "w") as fp:
        json.dump(out, fp)
    return 0


def orchestrate(pid, tier, seed, replay=None):
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="mgv-", dir=core.scratch_base())
    os.environ["MGV_BASE"] = tmp
    try:
        return _orchestrate(pid, tier, seed, tmp, t0, replay)
    finally:
        core._cleanup(tmp)


def _orchestrate(pid, tier, seed, tmp, t0, replay):
    if replay is not None:
        os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
        setup_imports()
        check = load_check(pid)
        with open(replay) as fp:
            data = json.load(fp)
        res = core.run_case(check, data["case"], tmp, verbose=True)
        print(json.dumps({k: v for k, v in res.items()}, indent=1)[:4000])
        if res["status"] == "violation":
            print(res["msg"])
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        return 0 if res["status"] == "ok" else 2

    # budgets are read from the module source without importing the code under test
    budgets = json.loads(subprocess.run(
        [sys.executable, "-B", "-c",
         "import sys,json; sys.path.insert(0,%r); from mgv.budgets import BUDGETS; print(json.dumps(BUDGETS[%r]))" % (VERIF, pid)],
        check=True, capture_output=True, text=True).stdout)
    per_worker = budgets[tier] if tier in budgets else budgets["quick"] * 20
    scale = float(os.environ.get("MGV_SCALE", "1"))
    per_worker = max(1, int(per_worker * scale))
    workers = min(WORKERS, budgets.get("workers", WORKERS))
    time_cap = 300 if tier == "quick" else 3600
    procs = []
    for i in range(workers):
        base = os.path.join(tmp, f"w{i}")
        os.mkdir(base)
        env = dict(os.environ, PYTHONHASHSEED=str((seed * 7919 + i * 104729) % 4294967295),
                   MGV_BASE=tmp, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="", LC_ALL="C.UTF-8")
        env.pop("PYTHONPATH")
        cmd = [sys.executable, "-B", os.path.join(VERIF, "run_check.py"), "--worker", pid,
               "--seed", str(seed * 1000 + i), "--index", str(i), "--workers", str(workers),
               "--examples", str(per_worker), "--base", base, "--out", os.path.join(tmp, f"out{i}.json"),
               "--time-cap", str(time_cap), "--shrink-time", "30"]
        procs.append(subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, cwd=tmp,
                                      stdout=open(os.path.join(tmp, f"log{i}"), "w"), stderr=subprocess.STDOUT))
    outs = []
    bad = []
    for i, p in enumerate(procs):
        p.wait()
        path = os.path.join(tmp, f"out{i}.json")
        if p.returncode != 0 or not os.path.exists(path):
            with open(os.path.join(tmp, f"log{i}")) as fp:
                bad.append(f"worker {i} exit {p.returncode}: {fp.read()[-4000:]}")
            continue
        with open(path) as fp:
            outs.append(json.load(fp))

    labels, keys, samples, errors, known_hits = {}, set(), [], [], {}
    evaluations = inconclusive = 0
    violation = None
    harness = bool(bad)
    for o in outs:
        evaluations += o["evaluations"]
        inconclusive += o["inconclusive"]
        keys |= set(o["keys"])
        samples += o["samples"]
        errors += o["errors"]
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in o["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        if o.get("harness_error"):
            harness = True
        v = o["violation"]
        if v and (violation is None or len(json.dumps(v["case"])) < len(json.dumps(violation["case"]))):
            violation = v
    with open(os.path.join(VERIF, "known_findings.json")) as fp:
        kf = [f for f in json.load(fp)["findings"] if f["property"] == pid and f["status"] == "known"]
    rule = budgets["rule"]
    samples = sorted(samples, key=lambda c: len(json.dumps(c)))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": rule,
            "samples": samples[len(samples) // 3: len(samples) // 3 + 4] or samples[:4] or ["none"],
            "labels": dict(sorted(labels.items())), "inconclusive": inconclusive,
            "workers": workers, "examples_per_worker": per_worker,
            "stopped_early": sorted({o["stopped"] for o in outs if o["stopped"]}),
            "known_finding_hits": known_hits,
        },
        "assumptions": budgets.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fp:
        json.dump(evidence, fp, indent=1)
    print(f"{pid} tier={tier} seed={seed}: {evaluations} cases, {len(keys)} distinct non-trivial, "
          f"{inconclusive} inconclusive, {evidence['wall_s']} s")
    for f in kf:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", f"{pid}-{core.case_key(violation['case'])}.json")
        with open(rp, "w") as fp:
            json.dump({"property": pid, **violation}, fp, indent=1)
        print(f"[{violation['sig']}] {violation['msg'][:3000]}")
        print("case:", json.dumps(violation["case"])[:3000])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if harness:
        for b in bad[:2]:
            print("HARNESS ERROR:", b)
        for e in [e for e in errors if e["kind"] == "harness"][:2]:
            print("HARNESS ERROR:", e["msg"][-3000:], json.dumps(e["case"])[:2000])
        return 2
    for e in errors[:3]:
        print("inconclusive:", e["kind"], e["msg"], json.dumps(e["case"])[:1000])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--examples", type=int, default=0)
    ap.add_argument("--base")
    ap.add_argument("--out")
    ap.add_argument("--time-cap", type=float, default=300)
    ap.add_argument("--shrink-time", type=float, default=30)
    args = ap.parse_args()
    if args.worker:
        return worker(args)
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    return orchestrate(args.property, tier, seed, args.replay)
