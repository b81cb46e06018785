"""Worker: symbolic exploration (instrumented code) or concrete replay
(the real code, untouched).  Each task runs in a forked process."""
from __future__ import annotations

import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("NOW_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4


def load_harness(prop, symbolic):
    sys.path.insert(0, ROOT)
    os.environ["SX_MODE"] = "sym" if symbolic else "conc"
    if symbolic:
        from symex import instrument
        instrument.install()
        module = instrument.symbolic_posixpath()
        os.path = module
        sys.modules["os.path"] = module
    else:
        sys.dont_write_bytecode = True
        sys.path.insert(0, os.path.join(REPO, "capture"))
    import importlib
    import pkgutil
    import harness
    for info in pkgutil.iter_modules(harness.__path__):
        if info.name.split("_")[0].upper() == prop:
            importlib.import_module("harness." + info.name)
    from symex.api import HARNESSES
    return HARNESSES.get(prop, [])


class FunctionRecorder(object):
    """Which functions of the repository were executed"""

    def __init__(self):
        self.seen = set()
        self.prefix = os.path.join(REPO, "capture", "noworkflow")

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, "symex")
        except ValueError:
            return
        mon.register_callback(3, mon.events.PY_START, self._start)
        mon.set_events(3, mon.events.PY_START)

    def _start(self, code, offset):
        name = code.co_filename
        if name.startswith(self.prefix):
            self.seen.add("%s:%s" % (name[len(self.prefix) + 1:],
                                     code.co_qualname))
        return sys.monitoring.DISABLE


def fork_pool(jobs, func, timeout_of, nproc=NPROC):
    """Run func(job) in forked processes, yields (job, result or None)"""
    import tempfile
    import signal
    tmp = tempfile.mkdtemp(prefix="sxw")
    pending = list(enumerate(jobs))
    running = {}
    results = {}
    try:
        while pending or running:
            while pending and len(running) < nproc:
                index, job = pending.pop(0)
                out = os.path.join(tmp, "%d.json" % index)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        try:
                            resource.setrlimit(resource.RLIMIT_AS,
                                               (6 << 30, 6 << 30))
                        except Exception:
                            pass
                        devnull = os.open(os.devnull, os.O_RDWR)
                        os.dup2(devnull, 0)
                        if not os.environ.get("SX_DEBUG"):
                            os.dup2(devnull, 1)
                            os.dup2(devnull, 2)
                        result = func(job)
                        with open(out + ".tmp", "w") as fil:
                            json.dump(result, fil, default=repr)
                        os.rename(out + ".tmp", out)
                    except BaseException:
                        code = 3
                        try:
                            with open(out, "w") as fil:
                                json.dump({"crash": traceback.format_exc()[-4000:]},
                                          fil)
                        except BaseException:
                            pass
                    finally:
                        os._exit(code)
                running[pid] = (index, job, out, time.time())
            time.sleep(0.01)
            for pid in list(running):
                index, job, out, start = running[pid]
                done, _ = os.waitpid(pid, os.WNOHANG)
                if not done and time.time() - start > timeout_of(job):
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(pid, signal.SIGKILL)
                        except OSError:
                            pass
                    os.waitpid(pid, 0)
                    results[index] = {"crash": "timeout"}
                    del running[pid]
                    continue
                if done:
                    del running[pid]
                    if os.path.exists(out):
                        with open(out) as fil:
                            results[index] = json.load(fil)
                    else:
                        results[index] = {"crash": "no result"}
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return [results[i] for i in range(len(jobs))]


def explore(task, budget, max_samples, only_known=()):
    from symex.core import Explorer
    recorder = FunctionRecorder()
    recorder.start()
    samples = []
    start = time.time()
    explorer = Explorer(start + budget,
                        max_paths=task.kwargs.get("max_paths", 200000),
                        max_depth=task.kwargs.get("max_depth", 4000))
    explorer.known_ids = set(only_known)
    state = {"n": 0, "step": 1}

    def on_path(sx):
        state["n"] += 1
        if state["n"] % state["step"] == 0:
            samples.append({
                "inputs": sx.values(sx.model),
                "observations": [
                    (n, _canon(sx, v, sx.model))
                    for n, v in sx.observations],
            })
            if len(samples) >= 2 * max_samples:
                del samples[::2]
                state["step"] *= 2

    explorer.run(task, on_path)
    stats = explorer.stats
    return {
        "task": task.name,
        "paths": stats.paths,
        "infeasible": stats.infeasible,
        "aborted": stats.aborted,
        "decisions": stats.decisions,
        "queries": stats.queries,
        "checks": stats.checks,
        "discharged": stats.discharged,
        "unknown": stats.unknown,
        "solver_s": round(stats.solver_s, 3),
        "concretizations": stats.concretizations,
        "max_depth": stats.max_depth,
        "complete": explorer.complete,
        "incompletes": explorer.incompletes,
        "labels": explorer.labels,
        "reached": explorer.reached,
        "violations": explorer.violations,
        "samples": samples[:max_samples],
        "functions": sorted(recorder.seen),
        "wall_s": round(time.time() - start, 3),
    }


def _canon(sx, value, model):
    from symex.api import canon
    return canon(sx.evaluate(value, model))


def main():
    mode, prop, spec_path, out_path = sys.argv[1:5]
    with open(spec_path) as fil:
        spec = json.load(fil)
    tasks = load_harness(prop, mode == "sym")
    if mode == "list":
        with open(out_path, "w") as fil:
            json.dump([{"name": t.name, "budget": t.budget,
                        "bounds": t.bounds, "tiers": t.kwargs["tiers"],
                        "reach": t.kwargs.get("reach", [])}
                       for t in tasks], fil)
        return
    by_name = {t.name: t for t in tasks}
    if mode == "sym":
        tier = spec["tier"]
        scale = spec.get("scale", 1.0)
        jobs = [t for t in tasks if tier in t.kwargs["tiers"]
                and (not spec.get("only") or t.name in spec["only"])]
        known = spec.get("known", [])

        def budget(task):
            return task.budget[0 if tier == "quick" else 1] * scale
        # the longest first
        jobs.sort(key=lambda t: -budget(t))
        results = fork_pool(
            jobs, lambda t: explore(t, budget(t), spec["samples"], known),
            lambda t: budget(t) * 1.5 + 45)
        final = []
        for task, res in zip(jobs, results):
            res["task"] = task.name
            res["bounds"] = task.bounds
            res["reach"] = task.kwargs.get("reach", [])
            final.append(res)
    else:
        from symex.api import run_concrete
        groups = spec["groups"]     # list of {task, runs: [inputs]}
        deadline = time.time() + spec.get("budget", 600)

        def run(group):
            task = by_name[group["task"]]
            out = []
            for inputs in group["runs"]:
                if time.time() > deadline:
                    break
                # each run in its own process: no state is left behind
                out.append(isolated(lambda: run_concrete(task, inputs),
                                    group.get("timeout", 60)))
            return out
        final = fork_pool(groups, run, lambda g: max(
            60, spec.get("budget", 600)))
    with open(out_path, "w") as fil:
        json.dump(final, fil, default=repr)


def isolated(func, timeout):
    """Result of func in a new process. Its children end with it"""
    import select
    import signal
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            os.setsid()
            try:
                data = json.dumps(func(), default=repr)
            except BaseException:
                data = json.dumps({"crash": traceback.format_exc()[-3000:]})
            data = data.encode() + b"\n"
            while data:
                data = data[os.write(wfd, data):]
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    end = time.time() + timeout
    # children of the process may keep the pipe open
    while not data.endswith(b"\n"):
        ready, _, _ = select.select([rfd], [], [], max(0, end - time.time()))
        chunk = os.read(rfd, 1 << 16) if ready else b""
        if not chunk:
            break
        data += chunk
    os.close(rfd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    try:
        return json.loads(data.decode())
    except ValueError:
        return {"crash": "no answer"}


if __name__ == "__main__":
    main()
