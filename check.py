#!/usr/bin/env python3
"""Decide one property: check.py PROP [--tier quick|thorough]

Explores the real code symbolically, replays every counterexample (and a
sample of the completed paths) against the untouched code, and writes
evidence/PROP.json.  Exits 0 (held on everything explored) or 1 (VIOLATION).
"""
from __future__ import annotations

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NOW_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def environment(home):
    env = dict(os.environ)
    env.update({
        "PYTHONPATH": os.pathsep.join([ROOT, "/opt/venv/lib/python3.12/site-packages", SITE]),
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "HOME": home,
        "TMPDIR": home,
        "NOW_REPO": REPO,
        "GIT_CONFIG_NOSYSTEM": "1",
        "LC_ALL": "C.UTF-8",
        "TZ": "UTC",
    })
    env.pop("PYTHONSTARTUP", None)
    return env


def run_worker(mode, prop, spec, scratch, timeout):
    spec_path = os.path.join(scratch, mode + ".spec.json")
    out_path = os.path.join(scratch, mode + ".out.json")
    with open(spec_path, "w") as fil:
        json.dump(spec, fil)
    if os.path.exists(out_path):
        os.remove(out_path)
    try:
        proc = subprocess.run(
            [PYTHON, "-m", "symex.worker", mode, prop, spec_path, out_path],
            cwd=scratch, env=environment(scratch), timeout=timeout,
            stdout=None if os.environ.get("SX_DEBUG") else subprocess.PIPE,
            stderr=None if os.environ.get("SX_DEBUG") else subprocess.STDOUT)
        output = (proc.stdout or b"").decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if not os.path.exists(out_path):
        return None, output[-4000:]
    with open(out_path) as fil:
        return json.load(fil), ""


def load_known():
    path = os.path.join(ROOT, "known_findings.jsonl")
    findings = []
    if os.path.exists(path):
        with open(path) as fil:
            for line in fil:
                line = line.strip()
                if line.startswith("{"):
                    findings.append(json.loads(line))
    return findings


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--only", action="append", default=[])
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("-v", "--verbose", action="store_true")
    args = parser.parse_args()
    prop, tier = args.prop, args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="sx-%s-" % prop)
    try:
        code = decide(prop, tier, args, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(prop, tier, args, scratch, start):
    known = [k for k in load_known() if k["property"] == prop
             and k.get("status") == "known"]
    total = 780 if tier == "quick" else 7200
    samples = 3 if tier == "quick" else 8
    problems = []
    results, err = run_worker("sym", prop, {
        "tier": tier, "samples": samples, "only": args.only,
        "known": [k["id"] for k in known], "scale": args.scale,
    }, scratch, total)
    if results is None:
        problems.append("symbolic exploration gave no result: " + err)
        results = []
    # concrete replays
    groups = []
    for res in results:
        if "crash" in res:
            problems.append("%s: %s" % (res["task"], res["crash"][-1500:]))
            continue
        for viol in res["violations"]:
            groups.append({"task": res["task"], "kind": "violation",
                           "viol": viol, "runs": [viol["inputs"]]})
        if res["samples"]:
            groups.append({"task": res["task"], "kind": "sample",
                           "samples": res["samples"],
                           "runs": [s["inputs"] for s in res["samples"]]})
    for finding in known:
        if args.only and finding["task"] not in args.only:
            continue
        groups.append({"task": finding["task"], "kind": "known",
                       "finding": finding, "runs": [finding["inputs"]]})
    budget = max(60, (840 if tier == "quick" else 9000) - (time.time() - start))
    replays = []
    if groups:
        # violations first
        groups.sort(key=lambda g: {"violation": 0, "known": 1, "sample": 2}[g["kind"]])
        replays, err = run_worker("conc", prop, {
            "groups": groups, "budget": budget * 0.9}, scratch, budget)
        if replays is None:
            problems.append("concrete replay gave no result: " + err)
            replays = [None] * len(groups)
    validated = mismatches = unreproduced = 0
    violations = []
    printed = set()
    known_lines = []
    known_suppressed = 0
    for group, runs in zip(groups, replays):
        if not isinstance(runs, list):
            if runs is not None:
                problems.append("%s: replay: %s" % (group["task"], runs.get("crash")))
            continue
        if group["kind"] == "sample":
            for sample, run in zip(group["samples"], runs):
                if run.get("crash") or run.get("skipped"):
                    problems.append("%s: sample replay %s: %s" % (
                        group["task"], sample["inputs"],
                        run.get("crash") or "skipped"))
                    mismatches += 1
                elif run["failures"]:
                    # the encoding says that the path is fine, but the real
                    # code fails: still a reproduced failure of the property
                    for label, info in run["failures"]:
                        if is_known(known, group["task"], label):
                            known_suppressed += 1
                            continue
                        violations.append({
                            "task": group["task"], "label": label,
                            "inputs": sample["inputs"], "info": info,
                            "found_by": "replay of explored path"})
                elif [list(o) for o in run["observations"]] != [
                        list(o) for o in sample["observations"]]:
                    mismatches += 1
                    problems.append("%s: encoding mismatch in %s: %r != %r" % (
                        group["task"], sample["inputs"],
                        sample["observations"], run["observations"]))
                else:
                    validated += 1
        elif group["kind"] == "violation":
            viol = group["viol"]
            run = runs[0] if runs else {"crash": "not run"}
            if run.get("crash") or run.get("skipped") or not run["failures"]:
                unreproduced += 1
                problems.append("%s: counterexample not reproduced: %s %s %s" % (
                    group["task"], viol["label"], viol["inputs"],
                    (run.get("crash") or viol.get("info"))))
                continue
            for label, info in run["failures"]:
                if is_known(known, group["task"], label):
                    known_suppressed += 1
                    continue
                violations.append({
                    "task": group["task"], "label": label,
                    "inputs": viol["inputs"], "info": info,
                    "found_by": "solver"})
        else:
            finding = group["finding"]
            run = runs[0] if runs else {}
            if any(is_known([finding], group["task"], label)
                   for label, _ in run.get("failures", [])):
                known_lines.append("KNOWN-FINDING: property=%s %s" % (
                    prop, finding["what"]))
            else:
                problems.append("known finding %s no longer reproduces: %r" % (
                    finding["id"], run))
    # vacuity
    vacuous = []
    for res in results:
        if "crash" in res:
            continue
        if not res["paths"] and not res["violations"]:
            vacuous.append(res["task"] + ": no path completed")
        for label in res.get("reach", []):
            if label not in res["reached"]:
                vacuous.append("%s: %s not reached" % (res["task"], label))
    problems.extend("vacuous: " + v for v in vacuous)
    uniq = []
    seen = set()
    for viol in violations:
        key = (viol["task"], viol["label"])
        if key not in seen:
            seen.add(key)
            uniq.append(viol)
    write_evidence(prop, tier, results, validated, mismatches, unreproduced,
                   uniq, known_lines, known_suppressed, problems, start)
    for line in known_lines:
        print(line)
    if args.verbose or os.environ.get("SX_VERBOSE"):
        for res in results[:int(os.environ.get("SX_VERBOSE", "14"))]:
            if "crash" in res:
                print("  %-50s CRASH" % res["task"])
                continue
            print("  %-50s paths=%d checks=%d/%d queries=%d wall=%.1f %s %s" % (
                res["task"], res["paths"], res["discharged"], res["checks"],
                res["queries"], res["wall_s"],
                "" if res["complete"] else "INCOMPLETE %s" % res["incompletes"],
                "" if not res["violations"] else "candidates=%d" % len(res["violations"])))
        shown = set()
        for problem in problems:
            kind = problem.split(":", 2)[1][:40] + problem[-120:]
            if kind not in shown and len(shown) < 5:
                shown.add(kind)
                print("  problem:", problem[:300].replace("\\n", "\n"),
                      "...", problem[-900:].replace("\\n", "\n"))
        print("  problems:", len(problems))
    if uniq:
        replay_dir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(replay_dir, exist_ok=True)
        for index, viol in enumerate(uniq):
            path = os.path.join(replay_dir, "%s-%d.json" % (prop, index))
            with open(path, "w") as fil:
                json.dump(dict(viol, property=prop, how=(
                    "python3 %s/replay.py %s" % (ROOT, path))), fil, indent=1)
            if index < 10:
                print("violated: %s %s inputs=%s" % (
                    viol["task"], viol["label"], json.dumps(viol["inputs"])))
                for key, value in viol["info"].items():
                    print("    %s: %s" % (key, str(value)[-600:]))
        print("VIOLATION property=%s replay=%s" % (
            prop, os.path.join(replay_dir, "%s-0.json" % prop)))
        return 1
    print("property=%s held on everything explored (%d tasks, %d paths, "
          "%d problems, %.1fs)" % (
              prop, len(results), sum(r.get("paths", 0) for r in results),
              len(problems), time.time() - start))
    return 0


def is_known(known, task, label):
    for finding in known:
        if label.endswith("#" + finding["id"]):
            return True     # the harness delimits the failing inputs
        if finding["task"] == task and finding["label"] == label:
            return True
    return False


def write_evidence(prop, tier, results, validated, mismatches, unreproduced,
                   violations, known_lines, suppressed, problems, start):
    good = [r for r in results if "crash" not in r]
    functions = sorted(set(f for r in good for f in r["functions"]))
    samples = []
    for res in good:
        for sample in res["samples"][:1]:
            samples.append({"task": res["task"], "inputs": sample["inputs"],
                            "observations": sample["observations"][:6]})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] + r["infeasible"] + r["aborted"] for r in good),
            "transitions": sum(r["decisions"] for r in good),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "paths_completed": sum(r["paths"] for r in good),
            "assertions_checked": sum(r["checks"] for r in good),
            "assertions_discharged": sum(r["discharged"] for r in good),
            "solver_queries": sum(r["queries"] for r in good),
            "solver_s": round(sum(r["solver_s"] for r in good), 3),
            "solver_unknown": sum(r["unknown"] for r in good),
            "encoding_mismatches": mismatches,
            "counterexamples_not_reproduced": unreproduced,
            "functions_encoded": functions,
            "exhaustive": all(r["complete"] for r in good) and len(good) == len(results),
            "tasks": [{
                "task": r["task"], "bounds": r["bounds"], "paths": r["paths"],
                "assertions": r["checks"], "discharged": r["discharged"],
                "queries": r["queries"], "solver_s": r["solver_s"],
                "complete": r["complete"], "incomplete_because": r["incompletes"],
                "concretizations": r["concretizations"],
                "labels": r["labels"],
            } for r in good],
            "known_findings_reproduced": len(known_lines),
            "inconclusive": problems[:40],
        },
        "assumptions": [
            "bounds of each task are in coverage.tasks[].bounds; inputs outside them are not covered",
            "floats are modelled as exact rationals (multiples of 1/4)",
            "every reported counterexample was replayed against the untouched code",
        ],
        "wall_s": round(time.time() - start, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fil:
        json.dump(evidence, fil, indent=1, default=repr)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    main()
