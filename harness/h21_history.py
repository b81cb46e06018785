"""H21: the history graph orders trials and links each to its visible origin"""
from symex.api import harness
from symex.symdb import Handle

from noworkflow.now.persistence.models import Trial, Tag
from noworkflow.now.models.history import History
from noworkflow.now.models.graphs.history_graph import HistoryGraph

STATUS = {"f": "finished", "u": "unfinished", "b": "backup"}


def build(sx, db, amount, experiments, prefix="t", outside=False):
    """Symbolic trials; every parent starts before its children"""
    trials = []
    for index in range(amount):
        key = prefix + "%d" % index
        options = [None] + [t["id"] for t in trials]
        trial = {
            "id": key,
            "script": sx.str(key + ".script", "pq", 1, 1),
            "status": sx.str(key + ".status", "fu", 1, 1),
            "seconds": sx.int(key + ".start", 0, 100),
            "parent_id": sx.choose(key + ".parent", options),
            "experiment_id": sx.choose(key + ".exp", experiments),
        }
        for other in trials:
            sx.assume(sx.not_(sx.eq(trial["seconds"], other["seconds"])))
            if other["id"] == trial["parent_id"]:
                sx.assume(other["seconds"] < trial["seconds"])
        trials.append(trial)
    for trial in trials:
        start = db.at(trial["seconds"])
        db.insert(Trial, id=trial["id"], script=trial["script"], start=start,
                  finish=start, command="c", path="/x",
                  status=trial["status"], parent_id=trial["parent_id"],
                  experiment_id=trial["experiment_id"])
    return trials


def shown(sx, trials, experiment, script, status):
    """Trials that should be in the history"""
    result = {}
    for trial in trials:
        if trial["experiment_id"] != experiment:
            continue
        matches = True
        if script != "*":
            matches = sx.and_(matches, sx.eq(trial["script"], script))
        if status != "*":
            matches = sx.and_(matches, sx.eq(trial["status"], status))
        result[trial["id"]] = bool(matches)
    return result


def verify(sx, history, trials, experiment, script, status):
    """Compare graph with the trials"""
    data = history.graph.graph()
    visible = shown(sx, trials, experiment, script, status)
    byid = {t["id"]: t for t in trials}
    ids = [node["id"] for node in data["nodes"]]
    sx.check(sorted(ids) == sorted(t for t in visible if visible[t]),
             "the selected trials are shown exactly once",
             shown=ids, expected=[t for t in visible if visible[t]])
    for first, second in zip(ids, ids[1:]):
        sx.check(byid[first]["seconds"] < byid[second]["seconds"],
                 "trials are in chronological order")
    expected = set()
    for trial in ids:
        parent = byid[trial]["parent_id"]
        while parent is not None and parent in visible \
                and not visible[parent]:
            parent = byid[parent]["parent_id"]
        if parent is not None and parent in visible:
            expected.add((ids.index(trial), ids.index(parent)))
            if parent != byid[trial]["parent_id"]:
                sx.reach("hidden ancestor")
    # roots may be linked to themselves
    roots = {i for i in range(len(ids))} - {s for s, _ in expected}
    found = [(e["source"], e["target"]) for e in data["edges"]]
    found = [e for e in found if not (e[0] == e[1] and e[0] in roots)]
    sx.check(sorted(found) == sorted(expected),
             "each trial is linked to its nearest shown ancestor",
             found=found, expected=expected, ids=ids)
    for node in data["nodes"]:
        sx.check(node["level"] >= 0, "levels are not negative")
        trial = byid[node["id"]]
        sx.check(sx.eq(node["script"], trial["script"]),
                 "nodes carry the script of the trial")
        sx.check(sx.eq(node["status"], trial["status"]),
                 "nodes carry the status of the trial")
    return data


def reset(sx):
    HistoryGraph.cache = {}
    sx.cleanup(HistoryGraph.cache.clear)


@harness("H21", params=[
    ("%d,%s,%s" % (n, script, status),
     {"amount": n, "script": script, "status": status},
     {"tiers": ("quick", "thorough") if n < 4 else ("thorough",)})
    for n in (2, 3, 4) for script in "*p" for status in "*f"],
    budget=(100, 600))
def graph(sx, amount, script, status):
    """Trials with symbolic scripts, statuses, start times and parents;
    filters by script and status"""
    db = Handle(sx)
    reset(sx)
    trials = build(sx, db, amount, [None])
    history = History()
    history.script = script
    history.status = status
    verify(sx, history, trials, None, script, status)
    lines = [line for line in history.graph.__repr__().split("\n") if "t" in line]
    visible = shown(sx, trials, None, script, status)
    sx.check(len(lines) == sum(visible.values()),
             "one line per trial in the textual history")


@harness("H21", params=[("2", {"amount": 2}),
                        ("3", {"amount": 3}, {"tiers": ("thorough",)})],
         budget=(100, 600))
def experiments(sx, amount):
    """Trials of two experiments; histories of both are asked in sequence"""
    db = Handle(sx)
    reset(sx)
    trials = build(sx, db, amount, ["e1", "e2"])
    for experiment in ("e1", "e2"):
        history = History(expId=experiment)
        verify(sx, history, trials, experiment, "*", "*")


@harness("H21", params=[("2", {"amount": 2}), ("3", {"amount": 3})],
         budget=(100, 600))
def filters(sx, amount):
    """Histories with different filters asked in sequence"""
    db = Handle(sx)
    reset(sx)
    trials = build(sx, db, amount, [None])
    for script, status in (("*", "*"), ("p", "*"), ("*", "u"), ("*", "*")):
        history = History()
        history.script = script
        history.status = status
        verify(sx, history, trials, None, script, status)


@harness("H21", params=[
    ("%d,%s" % (n, status), {"amount": n, "status": status})
    for n in (2, 3) for status in "*f"], budget=(100, 600))
def summary(sx, amount, status):
    """Summarized history: each tagged trial in the node of its version"""
    db = Handle(sx)
    reset(sx)
    trials = build(sx, db, amount, [None])
    versions = {}
    last = None
    for trial in trials:
        kind = sx.choose(trial["id"] + ".tag", ["none", "same", "minor",
                                                "major"])
        if kind == "none":
            continue
        if last is None or kind == "major":
            last = [(last or [0])[0] + 1, 1, 1]
        elif kind == "minor":
            last = [last[0], last[1] + 1, 1]
        else:
            last = [last[0], last[1], last[2] + 1]
        versions[trial["id"]] = "%d.%d" % tuple(last[:2])
        db.insert(Tag, trial_id=trial["id"], type="AUTO",
                  name="%d.%d.%d" % tuple(last), timestamp=db.at(1))
    history = History(summarize=True)
    history.summarize = True
    history.status = status
    data = history.graph.graph()
    visible = shown(sx, trials, None, "*", status)
    found = {}
    for node in data["nodes"]:
        for trial in node["trials"]:
            sx.check(trial["id"] not in found, "trial shown once")
            found[trial["id"]] = node["id"]
    expected = {t: v for t, v in versions.items() if visible[t]}
    sx.check(found == expected,
             "tagged trials are shown in the node of their version",
             found=found, expected=expected)
    names = [node["id"] for node in data["nodes"]]
    sx.check(len(names) == len(set(names)), "one node per version")
