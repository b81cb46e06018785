"""H09: parents and heads follow the history of executions"""
from symex.api import harness
from symex.symdb import Handle

from noworkflow.now.persistence.models import Trial, Tag, Head, User, CodeBlock


def rows(db, trial_id):
    return [r for r in db.rows(Trial) if r["id"] == trial_id]


def heads(sx, db):
    return [(row["script"], row["trial_id"]) for row in db.rows(Head)]


class Oracle(object):
    """History of trials, kept by the harness"""

    def __init__(self, sx, db):
        self.sx = sx
        self.db = db
        self.trials = []   # dict(id, script, seconds, parent)
        self.heads = []    # (script, trial id)

    def head_of(self, script):
        for index, (name, _) in enumerate(self.heads):
            if bool(self.sx.eq(name, script)):
                return index
        return None

    def candidates(self, script):
        """Possible parents of a new trial"""
        sx = self.sx
        index = self.head_of(script)
        if index is not None:
            return [self.heads[index][1]]
        same = [t for t in self.trials if bool(sx.eq(t["script"], script))]
        return [t["id"] for t in same if bool(sx.and_(
            *[t["seconds"] >= o["seconds"] for o in same]))] or [None]

    def run(self, script, seconds, status="finished"):
        sx, db = self.sx, self.db
        expected = self.candidates(script)
        index = self.head_of(script)
        tid = Trial.create(script, db.at(seconds), "run", "/x", False)
        Trial.fast_update(tid, 1, db.at(seconds), status)
        found = rows(db, tid)
        sx.check(len(found) == 1, "the new trial is stored once")
        parent = found[0]["parent_id"]
        sx.check(parent != tid, "a trial is not its own parent")
        sx.check(parent in expected, "parent of the new trial",
                 parent=parent, expected=expected)
        for other in self.trials:
            if other["id"] == parent:
                sx.check(sx.eq(other["script"], script),
                         "parents are trials of the same script")
        sx.check(found[0]["status"] == status, "status of the new trial")
        if index is not None:
            sx.reach("parent from head")
            del self.heads[index]
        self.trials.append({"id": tid, "script": script, "seconds": seconds,
                            "parent": parent})
        self.verify()
        return tid

    def restore(self, trial):
        Trial(trial_ref=trial["id"]).create_head()
        index = self.head_of(trial["script"])
        if index is not None:
            del self.heads[index]
        self.heads.append((trial["script"], trial["id"]))
        self.sx.reach("restore")
        self.verify()

    def verify(self):
        sx = self.sx
        found = heads(sx, self.db)
        sx.check(len(found) == len(self.heads), "one head per script",
                 found=found, expected=self.heads)
        sx.check(sx.bag_eq(found, self.heads), "heads of the scripts",
                 found=found, expected=self.heads)
        parents = {r["id"]: r["parent_id"] for r in self.db.rows(Trial)}
        for trial in self.trials:
            sx.check(parents[trial["id"]] == trial["parent"],
                     "parents do not change later")
        for tid in parents:
            seen = set()
            while tid is not None:
                if tid in seen:
                    break
                seen.add(tid)
                tid = parents.get(tid)
            sx.check(tid is None, "no cycle in the parents")


def fresh(sx):
    if hasattr(Trial, "last_trial_id"):
        del Trial.last_trial_id


@harness("H09", params=[
    ("%d,%s" % (n, kind), {"amount": n, "monotonic": kind == "clock"},
     {"tiers": ("quick", "thorough") if n < 5 else ("thorough",)})
    for n in (3, 4, 5) for kind in ("clock", "skew")], budget=(120, 800))
def history(sx, amount, monotonic):
    """Sequence of runs and restores of two scripts with symbolic names and
    symbolic start times (ties included)"""
    db = Handle(sx)
    fresh(sx)
    oracle = Oracle(sx, db)
    last = None
    for index in range(amount):
        key = "op%d" % index
        ops = ["run"] + oracle.trials
        op = sx.choose(key, ops) if index else "run"
        if op == "run":
            script = sx.str(key + ".script", "pq", 1, 1)
            seconds = sx.int(key + ".start", 0, 50)
            if monotonic and last is not None:
                sx.assume(last <= seconds)
            last = seconds
            oracle.run(script, seconds)
        else:
            oracle.restore(op)
            if index < amount - 1 and sx.choose(key + ".backup",
                                                [False, True]):
                # restore over modified files: backup comes first
                seconds = sx.int(key + ".start", 0, 50)
                if monotonic:
                    sx.assume(last <= seconds)
                last = seconds
                oracle.run(op["script"], seconds, "backup")
                oracle.restore(op)


@harness("H09", params=[("", {})], budget=(100, 400))
def names(sx):
    """Scripts whose names are similar to each other"""
    db = Handle(sx)
    fresh(sx)
    oracle = Oracle(sx, db)
    first = sx.str("first", "a/_%", 1, 2)
    second = sx.str("second", "a/_%", 1, 2)
    oracle.run(first, 1)
    if sx.choose("restore", [False, True]):
        oracle.restore(oracle.trials[0])
    oracle.run(second, 2)


IDS = ("1t", "t-1", "2-")


@harness("H09", params=[
    ("%d" % n, {"amount": n},
     {"tiers": ("quick", "thorough") if n < 3 else ("thorough",)})
    for n in (1, 2, 3)], budget=(100, 600))
def lookup(sx, amount):
    """Trials with tags looked up by reference"""
    db = Handle(sx)
    fresh(sx)
    trials = []
    for index in range(amount):
        # ids that look like sequence numbers and tags
        key = IDS[index]
        seconds = sx.int(key + ".start", 0, 50)
        seq = db.insert(
            Trial, id=key, script=sx.str(key + ".script", "pq", 1, 1),
            start=db.at(seconds), finish=None, command="c", path="/x",
            status="finished")
        trials.append({"id": key, "seconds": seconds, "sequence": seq,
                       "tags": []})
        for tag in range(sx.choose(key + ".tags", [0, 1, 2])):
            name = sx.str("%s.tag%d" % (key, tag), "1t-", 1, 3)
            for other in IDS:
                sx.assume(sx.not_(sx.eq(name, other)))
            db.insert(Tag, trial_id=key, type="USER", name=name,
                      timestamp=db.at(0))
            trials[-1]["tags"].append(name)
    for trial in trials:
        found = Trial.load_trial(trial["id"])
        sx.check(found is not None and found.id == trial["id"],
                 "lookup by id")
        wrapped = Trial(trial_ref=trial["id"])
        sx.check(wrapped.id == trial["id"], "trial object by id")
        sx.check(wrapped.sequence_key == trial["sequence"],
                 "sequence of the trial object")
    reference = sx.str("ref", "1t-", 1, 3)
    found = Trial.load_trial(reference)

    def matches(trial):
        return sx.or_(*[sx.eq(t, reference) for t in trial["tags"]] + [
            sx.eq(reference, str(trial["sequence"])),
            sx.eq(reference, trial["id"])])
    if found is None:
        for trial in trials:
            sx.check(sx.not_(matches(trial)), "matching trial is found")
    else:
        sx.reach("found")
        mine = [t for t in trials if t["id"] == found.id]
        sx.check(len(mine) == 1, "the result is one of the trials")
        sx.check(matches(mine[0]), "the result matches the reference")


@harness("H09", params=[("%d" % n, {"amount": n}) for n in (1, 2, 3)],
         budget=(100, 400))
def last(sx, amount):
    """The last trial, and the trial whose modules are inherited"""
    db = Handle(sx)
    fresh(sx)
    trials = []
    for index in range(amount):
        key = "t%d" % index
        seconds = sx.int(key + ".start", 0, 50)
        script = sx.str(key + ".script", "pq", 1, 1)
        options = [None] + [t["id"] for t in trials if not t["inherited"]]
        inherited = sx.choose(key + ".inherited", options)
        db.insert(Trial, id=key, script=script, start=db.at(seconds),
                  finish=None, command="c", path="/x", status="finished",
                  modules_inherited_from_trial_id=inherited)
        for other in trials:
            sx.assume(sx.not_(sx.eq(seconds, other["seconds"])))
        trials.append({"id": key, "seconds": seconds, "script": script,
                       "inherited": inherited})

    def newest(items):
        for trial in items:
            if bool(sx.and_(*[trial["seconds"] >= o["seconds"]
                              for o in items])):
                return trial["id"]
        return None
    sx.check(Trial(trial_ref=None).id == newest(trials), "last trial")
    script = sx.str("script", "pqr", 1, 1)
    same = [t for t in trials if bool(sx.eq(t["script"], script))]
    found = Trial.last_trial(script=script, check=True)
    sx.check((found.id if found else None) == newest(same),
             "last trial of the script")
    found = Trial.last_trial(script=script)
    sx.check((found.id if found else None) == newest(same or trials),
             "last trial of the script, or last trial")
    sx.check(Trial.fast_last_trial_id() == newest(
        [t for t in trials if not t["inherited"]]),
        "inherited modules are those of the last complete trial")
