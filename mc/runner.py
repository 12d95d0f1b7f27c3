"""Command line: python -m mc.runner <property> <quick|thorough> [--only SUBSTRING] [--jobs N]

Spreads the tasks of one check over worker processes, merges what they explored, writes
evidence/<property>.json, prints VIOLATION / KNOWN-FINDING lines.
"""

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def worker(prop, tier, only, workdir):
    import faulthandler

    faulthandler.enable()
    from mc.core import dump, load_known, run_task

    known = load_known(os.path.join(HERE, "KNOWN_FINDINGS.txt"), prop)
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    tasks = mod.tasks(tier)
    names = [t.name for t in tasks]
    assert len(set(names)) == len(names), "task names are not unique"
    for i, task in enumerate(tasks):
        if only and only not in task.name:
            continue
        if os.path.exists(os.path.join(workdir, "stop")):
            break
        try:  # claim the task
            os.close(os.open(os.path.join(workdir, f"claim{i}"), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        t0 = time.time()
        res = run_task(prop, task, tier, known)
        res["index"] = i
        res["wall_s"] = time.time() - t0
        dump(os.path.join(workdir, f"result{i:05d}.json"), res)
        if res["violations"] and os.environ.get("MC_FAIL_FAST"):
            open(os.path.join(workdir, "stop"), "w").close()
    dump(os.path.join(workdir, f"done{os.getpid()}.json"), {"n": len(tasks)})


def main():
    args = sys.argv[1:]
    only = None
    jobs = None
    verbose = False
    if "--only" in args:
        k = args.index("--only")
        only = args[k + 1]
        del args[k : k + 2]
    if "--jobs" in args:
        k = args.index("--jobs")
        jobs = int(args[k + 1])
        del args[k : k + 2]
    if "-v" in args:
        args.remove("-v")
        verbose = True
    if args and args[0] == "--worker":
        return worker(args[1], args[2], args[3] or None, args[4])
    prop = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    assert tier in ("quick", "thorough"), tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = jobs or min(6, os.cpu_count() or 1)
    workdir = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    try:
        procs = [
            subprocess.Popen(
                [sys.executable, "-m", "mc.runner", "--worker", prop, tier, only or "", workdir],
                stdout=open(os.path.join(workdir, f"out{j}"), "w"),
                stderr=subprocess.STDOUT,
            )
            for j in range(jobs)
        ]
        limit = 860 if tier == "quick" else 6 * 3600
        errors = []
        for j, p in enumerate(procs):
            try:
                rc = p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            if rc != 0:
                out = open(os.path.join(workdir, f"out{j}"), errors="replace").read()
                errors.append(f"worker {j} ended with {rc}:\n{out[-3000:]}")
        results = []
        n_tasks = None
        for f in sorted(os.listdir(workdir)):
            if f.startswith("result"):
                results.append(json.load(open(os.path.join(workdir, f))))
            elif f.startswith("done"):
                n_tasks = json.load(open(os.path.join(workdir, f)))["n"]
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    results.sort(key=lambda r: r["index"])
    errors += [f"task {r['task']}:\n{r['error']}" for r in results if r["error"]]
    violations = [v for r in results for v in r["violations"]]

    from mc.core import dump, load_known

    known = load_known(os.path.join(HERE, "KNOWN_FINDINGS.txt"), prop)
    hits = sorted({h for r in results for h in r["known_hits"]})
    for h in hits:
        print(f"KNOWN-FINDING: property={prop} {h}: {known.get(h, '')}")

    outcomes = set()
    samples = []
    for r in results:
        outcomes.update(r["outcomes"])
        samples += r["samples"][:1]
    samples = samples[:: max(1, len(samples) // 12)][:12] or [
        {"task": r["task"]} for r in results[:3]
    ]
    mod_doc = ""
    assumptions = []
    try:
        import ast

        tree = ast.parse(open(os.path.join(HERE, "mc/checks", prop.lower() + ".py")).read())
        mod_doc = ast.get_docstring(tree) or ""
        for node in tree.body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "ASSUMPTIONS":
                assumptions = ast.literal_eval(node.value)
    except Exception:
        traceback.print_exc()
    complete = n_tasks is not None and not errors and not violations and not only
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "comparisons_with_model": sum(r["comparisons"] for r in results),
            "distinct_outcome_values": len(outcomes),
            "tasks": len(results),
            "exhaustive": bool(complete),
            "explanation": mod_doc[:3000],
            "samples": samples,
            "notes": sorted({n for r in results for n in r["notes"]})[:20],
            "per_task": [
                {
                    "task": r["task"],
                    "states": r["states"],
                    "transitions": r["transitions"],
                    "traces": r["traces"],
                    "wall_s": round(r["wall_s"], 2),
                }
                for r in results
            ][:400],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not os.environ.get("MC_FAIL_FAST"):  # (mutation campaigns)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        dump(os.path.join(HERE, "evidence", f"{prop}.json"), evidence)
    if verbose:
        for r in sorted(results, key=lambda r: -r["wall_s"])[:25]:
            print(f"  {r['wall_s']:7.2f}s {r['states']:9d} states  {r['task']}")

    if violations and os.environ.get("MC_FAIL_FAST"):
        print(f"{prop}: {violations[0]['case']}: {violations[0]['detail'][:300]}")
        return 1
    if violations:
        replays = os.path.join(HERE, "replays")
        os.makedirs(replays, exist_ok=True)
        for k, v in enumerate(violations[:5]):
            path = os.path.join(replays, f"{prop}_{k}.json")
            v["command"] = f"./run.sh {prop} {tier} --only '{v['task']}'"
            dump(path, v)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['case']}: {v['detail'][:800]}")
        if len(violations) > 5:
            print(f"  ... {len(violations)} violations in all")
    c = evidence["coverage"]
    print(
        f"{prop} {tier}: {c['tasks']} tasks, {c['states']} states, {c['transitions']} transitions, "
        f"{c['traces_validated_against_impl']} traces on the implementation, "
        f"{c['distinct_outcome_values']} distinct outcomes, {evidence['wall_s']} s"
    )
    if violations:
        return 1
    if errors:
        print("ERROR of the check:", errors[0][-6000:])
        return 2
    if n_tasks is None or (len(results) != n_tasks and not only):
        print(f"ERROR of the check: {len(results)} of {n_tasks} tasks completed")
        return 2
    if not only and (c["states"] == 0 or c["distinct_outcome_values"] < 2):
        print("ERROR of the check: vacuous exploration")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
