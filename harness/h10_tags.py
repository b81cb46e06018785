"""H10: automatic version tags are unique and grow with the kind of change"""
from symex.api import harness
from symex.models import to_int, to_str
from symex.symdb import Handle

from noworkflow.now.persistence.models import Trial, Tag, CodeBlock


def add_trial(sx, db, key, index, code, command, experiment):
    db.insert(Trial, id=key, script="s.py", start=db.at(index),
              finish=db.at(index), command=command, path="/x",
              status="finished", main_id=1, experiment_id=experiment)
    db.insert(CodeBlock, trial_id=key, id=1, code_hash=code,
              docstring="")


def versions(sx, db):
    """(trial, text) of automatic tags"""
    return [(row["trial_id"], row["name"]) for row in db.rows(Tag)
            if row["type"] == "AUTO"]


def parse(name):
    return tuple(to_int(x) for x in name.split("."))


def judge(sx, new, olds, code, command, backup, experiment):
    """Is new the right version after olds?

    olds: list of (parts, code, command, experiment)
    """
    compared = [o for o in olds if bool(sx.eq(o[3], experiment))]
    same = [o for o in compared if not backup and
            bool(sx.and_(sx.eq(o[1], code), sx.eq(o[2], command)))]
    changed = [o for o in compared if not backup and
               bool(sx.eq(o[1], code))]
    for old in compared:
        sx.check(sx.not_(sx.and_(*[sx.eq(x, y)
                                   for x, y in zip(new, old[0])])),
                 "no other trial of the experiment has the version",
                 new=new, old=old[0])
    for old in same:
        sx.reach("same code and command")
        sx.check(sx.or_(new[0] > old[0][0],
                        sx.and_(sx.eq(new[0], old[0][0]),
                                new[1] > old[0][1]),
                        sx.and_(sx.eq(new[0], old[0][0]),
                                sx.eq(new[1], old[0][1]),
                                new[2] > old[0][2])),
                 "repetition is higher than the previous ones",
                 new=new, old=old[0])
    if same:
        sx.check(sx.or_(*[sx.and_(sx.eq(new[0], o[0][0]),
                                  sx.eq(new[1], o[0][1])) for o in same]),
                 "repetition only changes the third part", new=new)
        return
    for old in changed:
        sx.reach("other command")
        sx.check(sx.or_(new[0] > old[0][0],
                        sx.and_(sx.eq(new[0], old[0][0]),
                                new[1] > old[0][1])),
                 "other command is higher in the second part",
                 new=new, old=old[0])
    if changed:
        sx.check(sx.or_(*[sx.eq(new[0], o[0][0]) for o in changed]),
                 "other command does not change the first part", new=new)
        return
    for old in compared:
        sx.reach("other code")
        sx.check(new[0] > old[0][0],
                 "other code is higher in the first part",
                 new=new, old=old[0])
    if not compared:
        sx.reach("first")
        sx.check(sx.and_(*[sx.eq(x, 1) for x in new]),
                 "first version is 1.1.1")


@harness("H10", params=[
    ("%d" % n, {"amount": n},
     {"tiers": ("quick", "thorough") if n < 3 else ("thorough",)})
    for n in (1, 2, 3)],
    budget=(120, 800))
def step(sx, amount):
    """One more version after an arbitrary consistent set of versions: tags of
    the same major have the same code, and the same minor the same command"""
    db = Handle(sx)
    experiment = None
    olds = []
    for index in range(amount):
        key = "t%d" % index
        numbers = [sx.int(key + part, 0, 1000) for part in "abc"]
        code = sx.str(key + ".code", "xy", 1, 1)
        command = sx.str(key + ".command", "cd", 1, 1)
        for onumbers, ocode, ocommand, _ in olds:
            major = sx.eq(numbers[0], onumbers[0])
            minor = sx.and_(major, sx.eq(numbers[1], onumbers[1]))
            sx.assume(sx.implies(major, sx.eq(code, ocode)))
            sx.assume(sx.implies(minor, sx.eq(command, ocommand)))
            sx.assume(sx.not_(sx.and_(
                minor, sx.eq(numbers[2], onumbers[2]))))
        olds.append((numbers, code, command, None))
        add_trial(sx, db, key, index, code, command, None)
        db.insert(Tag, trial_id=key, type="AUTO",
                  name=".".join(to_str(x) for x in numbers),
                  timestamp=db.at(index))
    code = sx.str("new.code", "xyz", 1, 1)
    command = sx.str("new.command", "cde", 1, 1)
    add_trial(sx, db, "new", 100, code, command, experiment)
    name = Tag.create_automatic_tag("new", code, command)
    judge(sx, parse(name), olds, code, command, False, experiment)
    stored = [n for t, n in versions(sx, db) if t == "new"]
    sx.check(len(stored) == 1, "one tag is stored for the trial")
    sx.check(sx.eq(stored[0], name), "the answered version is stored")


@harness("H10", params=[
    ("%d" % n, {"amount": n},
     {"tiers": ("quick", "thorough") if n < 4 else ("thorough",)})
    for n in (2, 3, 4)], budget=(120, 800))
def history(sx, amount):
    """Sequence of runs and backups with symbolic code, command and
    experiment, starting from nothing"""
    db = Handle(sx)
    olds = []
    for index in range(amount):
        key = "t%d" % index
        code = sx.str(key + ".code", "xy", 1, 1)
        command = sx.str(key + ".command", "cd", 1, 1)
        experiment = sx.choose(key + ".exp", [None, "e"])
        backup = sx.choose(key + ".backup", [False, True])
        add_trial(sx, db, key, sx.choose(
            key + ".age", [index, -index] if index == 1 else [index]),
                  code, command, experiment)
        if sx.choose(key + ".other", [False, True] if index == 0 else [False]):
            db.insert(Tag, trial_id=key, type="USER", name="7.7.7",
                      timestamp=db.at(0))
        if backup:
            name = Tag.create_automatic_tag(
                key, None, None, None, experiment, True)
        else:
            name = Tag.create_automatic_tag(
                key, code, command, experiment_id=experiment)
        new = parse(name)
        if backup and olds and any(o[3] == experiment for o in olds):
            sx.check(new[1] == 0 and new[2] == 0,
                     "backups have zeros in the other parts")
        judge(sx, new, olds, code, command, backup, experiment)
        olds.append((new, code, command, experiment))


@harness("H10", params=[("", {})], budget=(100, 300))
def digits(sx):
    """Repetitions after a version with a symbolic number of digits"""
    db = Handle(sx)
    sx.repr_mode = "digits"
    third = sx.str("third", "0189", 1, 3)
    sx.assume(sx.or_(len(third) == 1, sx.not_(sx.eq(third[0], "0"))))
    base = to_int(third)
    add_trial(sx, db, "t0", 0, "x", "c", None)
    db.insert(Tag, trial_id="t0", type="AUTO", name="1.1." + third,
              timestamp=db.at(0))
    olds = [((1, 1, base), "x", "c", None)]
    for index in (1, 2):
        key = "t%d" % index
        add_trial(sx, db, key, index, "x", "c", None)
        new = parse(Tag.create_automatic_tag(key, "x", "c"))
        judge(sx, new, olds, "x", "c", False, None)
        olds.append((new, "x", "c", None))
