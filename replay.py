#!/usr/bin/env python3
"""Replay a counterexample against the real code: replay.py FILE"""
import json
import os
import shutil
import sys
import tempfile

import check


def main():
    with open(sys.argv[1]) as fil:
        viol = json.load(fil)
    scratch = tempfile.mkdtemp(prefix="sx-replay-")
    try:
        out, err = check.run_worker("conc", viol["property"], {
            "groups": [{"task": viol["task"], "runs": [viol["inputs"]]}],
            "budget": 300}, scratch, 400)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(out, indent=1) if out else err)
    failures = out and out[0][0].get("failures")
    sys.exit(1 if failures else 0)


if __name__ == "__main__":
    main()
