#!/usr/bin/env python3
"""mkseed.py SPEC.py: make and validate planted bugs in scratch copies

SPEC.py defines SEEDS = [dict(id, property, file, edits=[(old, new)], needs,
breaks, demo)].  For each one: patch, demo on both trees, stable tests of the
patched tree, and the check of its property against the patched copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/repo/capture/noworkflow/now/"
PY = "/opt/venv/bin/python"
PRELUDE = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "capture"))
'''


def main(path, only):
    space = {}
    exec(compile(open(path).read(), path, "exec"), space)
    for seed in space["SEEDS"]:
        if only and seed["id"] not in only:
            continue
        print("==", seed["id"], flush=True)
        folder = os.path.join(ROOT, "seeded", seed["id"])
        work = tempfile.mkdtemp(prefix="seed-")
        try:
            copy = os.path.join(work, "repo")
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
            shutil.copytree("/repo", copy, symlinks=True)
            subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."],
                           check=True)
            edits = seed.get("files") or [(seed["file"], seed["edits"])]
            bad = False
            for name, pairs in edits:
                full = os.path.join(copy, "capture/noworkflow/now", name)
                text = open(full).read()
                for old, new in pairs:
                    if text.count(old) != 1:
                        print("  EDIT does not match once:", text.count(old), old)
                        bad = True
                        continue
                    text = text.replace(old, new)
                open(full, "w").write(text)
            if bad:
                continue
            diff = subprocess.run(["git", "-C", copy, "diff"],
                                  capture_output=True, text=True).stdout
            os.makedirs(folder, exist_ok=True)
            open(os.path.join(folder, "patch.diff"), "w").write(diff)
            open(os.path.join(folder, "demo.sh"), "w").write(PRELUDE)
            open(os.path.join(folder, "demo.py"), "w").write(
                HEAD + seed["demo"].lstrip("\n"))
            json.dump({"property": seed["property"], "needs": seed["needs"],
                       "what_it_breaks": seed["breaks"]},
                      open(os.path.join(folder, "meta.json"), "w"), indent=1)
            ok = True
            for tree, want in (("/repo", True), (copy, False)):
                res = subprocess.run(["bash", os.path.join(folder, "demo.sh")],
                                     cwd=tree, capture_output=True, text=True)
                good = (res.returncode == 0) == want
                ok = ok and good
                print("  demo", tree[:6], res.returncode,
                      "" if good else "UNEXPECTED\n" + res.stdout[-800:] + res.stderr[-1500:])
            if not ok:
                continue
            env = dict(os.environ, NOW_REPO=copy)
            if "--no-tests" not in sys.argv:
                suite = os.path.join(work, "run_suite.py")
                open(suite, "w").write(open("/opt/vp/run_suite.py").read()
                                       .replace("/repo/capture",
                                                copy + "/capture"))
                script = open("/opt/vp/test.sh").read().replace(
                    "/repo/capture", copy + "/capture").replace(
                    "/opt/vp/run_suite.py", suite)
                out = os.path.join(work, "o.json")
                subprocess.run(["bash", "-c", script, "test", out],
                               capture_output=True)
                if os.path.exists(out):
                    got = json.load(open(out))
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    missing = set(base["stable"]) - set(got["passed"])
                    print("  tests missing:", sorted(missing)[:3], len(got["passed"]))
                else:
                    print("  tests: no result")
            res = subprocess.run(
                [PY, os.path.join(ROOT, "check.py"), seed["property"]],
                env=env, capture_output=True, text=True)
            lines = [l for l in res.stdout.splitlines()
                     if not l.startswith("KNOWN")]
            print("  check rc", res.returncode, "CAUGHT" if res.returncode == 1
                  else "MISSED")
            for line in lines[:3] + lines[-1:]:
                print("    ", line[:220])
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")])
