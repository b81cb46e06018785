"""D15: trial differences classify every record exactly once"""
from collections import OrderedDict
from datetime import datetime, timedelta

from symex.api import harness
from symex.hlib import Record, fake

from noworkflow.now.persistence.models import (
    Module, EnvironmentAttr, FileAccess, Trial)
from noworkflow.now.models import diff as diff_module
from noworkflow.now.models.diff import Diff

NAMES = "ab"


def make_module(sx, key, index):
    name = sx.str(key + "name", NAMES, 1, 1)
    version = sx.str(key + "version", "12", 1, 1)
    code = sx.choose(key + "hash", [None, "h1"])
    block = None if code is None else Record(code_hash=code, id=index)
    return (fake(Module, id=index, trial_id=key[:2], name=name,
                 version=version, path="/x", code_block=block,
                 code_block_id=None if code is None else index,
                 fullpath="/x/m", transformed=False),
            (name, version, code), name)


def make_environment(sx, key, index):
    name = sx.str(key + "name", NAMES, 1, 1)
    value = sx.str(key + "value", "12", 0, 1)
    return (fake(EnvironmentAttr, id=index, trial_id=key[:2], name=name,
                 value=value), (name, value), name)


def make_access(sx, key, index):
    name = sx.str(key + "name", NAMES, 1, 1)
    before = sx.str(key + "before", "12", 1, 1)
    after = sx.str(key + "after", "12", 1, 1)
    mode = sx.str(key + "mode", "rw", 1, 1)
    return (fake(FileAccess, id=index, trial_id=key[:2], name=name,
                 mode=mode, content_hash_before=before, buffering="default",
                 content_hash_after=after, checkpoint=1.0, activation_id=1),
            (name, before, after, mode), name)


KINDS = {
    "modules": ("modules", make_module),
    "environment": ("environment_attrs", make_environment),
    "file_accesses": ("file_accesses", make_access),
}


def make_side(sx, make, prefix, amount, distinct):
    items = []
    for index in range(amount):
        obj, key, name = make(sx, "%s.%d." % (prefix, index), index + 1)
        for _, okey, oname in items:
            if distinct:
                sx.assume(sx.not_(sx.eq(name, oname)))
            else:
                sx.assume(sx.not_(sx.eq(key, okey)))
        items.append((obj, key, name))
    return items


def find(items, obj):
    for index, item in enumerate(items):
        if item[0] is obj:
            return index
    return None


def verify(sx, left, right, result, pairing):
    added, removed, replaced = result
    added, removed, replaced = list(added), list(removed), list(replaced)
    if not pairing:
        sx.check(not replaced, "replacements are not requested")
    counts = {"left": [0] * len(left), "right": [0] * len(right)}
    equal1 = [sx.or_(*([False] + [sx.eq(k, ok) for _, ok, _ in right]))
              for _, k, _ in left]
    equal2 = [sx.or_(*([False] + [sx.eq(k, ok) for _, ok, _ in left]))
              for _, k, _ in right]
    for obj in removed:
        index = find(left, obj)
        sx.check(index is not None, "removed records are of the first trial")
        counts["left"][index] += 1
    for obj in added:
        index = find(right, obj)
        sx.check(index is not None, "added records are of the second trial")
        counts["right"][index] += 1
    for first, second in replaced:
        index, jndex = find(left, first), find(right, second)
        sx.check(index is not None and jndex is not None,
                 "replaced pairs go from the first to the second trial")
        counts["left"][index] += 1
        counts["right"][jndex] += 1
        sx.check(sx.eq(left[index][2], right[jndex][2]),
                 "replaced records have the same name")
    for index, equal in enumerate(equal1):
        sx.check(sx.eq(equal, counts["left"][index] == 0),
                 "equal records of the first trial are not reported")
        sx.check(counts["left"][index] <= 1,
                 "record of the first trial reported once")
    for index, equal in enumerate(equal2):
        sx.check(sx.eq(equal, counts["right"][index] == 0),
                 "equal records of the second trial are not reported")
        sx.check(counts["right"][index] <= 1,
                 "record of the second trial reported once")
    if pairing:
        for obj in removed:
            for other in added:
                sx.check(sx.not_(sx.eq(obj.name, other.name)),
                         "versions of the same item are paired")


def make_diff(kind, left, right):
    attr, _ = KINDS[kind]
    return fake(Diff,
                trial1=Record(**{attr: [x[0] for x in left]}),
                trial2=Record(**{attr: [x[0] for x in right]}))


@harness("D15", params=[
    ("%s-%d%d" % (k, m, n), {"kind": k, "sizes": (m, n)},
     {} if m + n < 5 else {"tiers": ("thorough",)})
    for k in KINDS for m, n in [(1, 2), (2, 1), (2, 2), (3, 2)]],
    budget=(60, 400), reach=["diff"])
def collections(sx, kind, sizes):
    """records of each kind: up to 2 per trial (3+2 in thorough) with every
    combination of names over {a b}, values over 2 alternatives and nulls,
    including repeated names; both directions"""
    make = KINDS[kind][1]
    distinct = kind == "environment"
    left = make_side(sx, make, "t1", sizes[0], distinct)
    right = make_side(sx, make, "t2", sizes[1], distinct)
    pairing = kind != "file_accesses"
    result = getattr(make_diff(kind, left, right), kind)
    verify(sx, left, right, result, pairing)
    back = getattr(make_diff(kind, right, left), kind)
    verify(sx, right, left, back, pairing)
    sx.reach("diff")
    if not pairing:
        sx.check(set(id(x) for x in result[0]) == set(id(x) for x in back[1])
                 and set(id(x) for x in result[1])
                 == set(id(x) for x in back[0]), "swap")
    sx.observe("sizes", [len(result[0]), len(result[1]), len(result[2])])


@harness("D15", params=[(k, {"kind": k}) for k in KINDS], budget=(40, 100),
         reach=["same"])
def itself(sx, kind):
    """a trial of 2 records compared with an equal one reports nothing"""
    make = KINDS[kind][1]
    left = make_side(sx, make, "t1", 2, kind == "environment")
    copies = [(fake(_base(obj), **obj.__dict__), key, name)
              for obj, key, name in left]
    result = getattr(make_diff(kind, left, copies[::-1]), kind)
    sx.check(not any(len(x) for x in result), "nothing to report")
    result = getattr(make_diff(kind, left, left), kind)
    sx.check(not any(len(x) for x in result), "nothing to report")
    sx.reach("same")


def _base(obj):
    return type(obj).__mro__[1]


FIELDS = [("script", "ab"), ("command", "ab"), ("status", "fu"),
          ("path", "ab")]
START = datetime(2020, 1, 1)


def make_trial(sx, prefix, fields):
    """Trial in which only some fields are symbolic"""
    values = OrderedDict()
    for name in Trial.__columns__:
        values[name] = "c"
    for name, alphabet in FIELDS:
        if name in fields and name in values:
            values[name] = sx.str(prefix + name, alphabet, 0, 1)
    values["id"] = prefix
    values["start"] = START
    if "start" in fields:
        values["start"] = START + timedelta(
            seconds=sx.choose(prefix + "start", [0, 1]))
    values["finish"] = START + timedelta(seconds=5)
    if "finish" in fields:
        values["finish"] = sx.choose(
            prefix + "finish", [None, START + timedelta(seconds=5),
                                START + timedelta(seconds=6)])
    for name in ("parent_id", "modules_inherited_from_trial_id"):
        if name in values:
            values[name] = None
            if "parent" in fields:
                values[name] = sx.choose(prefix + name, [None, "p"])
    code = "h"
    if "code" in fields:
        code = sx.str(prefix + "code", "hi", 1, 1)
    values["main"] = Record(code_hash=code)
    return fake(Trial, **values), values, code


@harness("D15", params=[("text", {"fields": ["script", "command", "status"]}),
                        ("other", {"fields": ["start", "finish", "parent",
                                              "code"]})],
         budget=(60, 200), reach=["attributes"])
def attributes(sx, fields):
    """trial attributes: texts of <= 1 character, times with or without
    finish, parents and code hash, each differing or not"""
    trial1, values1, code1 = make_trial(sx, "x", fields)
    trial2, values2, code2 = make_trial(sx, "y", fields)
    result = fake(Diff, trial1=trial1, trial2=trial2).trial
    sx.reach("attributes")
    wanted = {}
    for name in Trial.__columns__:
        if name != "id":
            wanted[name] = (values1[name], values2[name])
    wanted["code_hash"] = (code1, code2)
    wanted["duration_text"] = tuple(
        str(v["finish"] - v["start"]) if v["finish"] else "None"
        for v in (values1, values2))
    sx.check(set(result) <= set(wanted), "only attributes of trials")
    for name, (first, second) in wanted.items():
        sx.check(sx.eq(sx.eq(first, second), name not in result),
                 "attribute reported iff it differs: " + name)
        if name in result:
            sx.check(sx.eq(list(result[name]), [first, second]),
                     "values before and after: " + name)
    back = fake(Diff, trial1=trial2, trial2=trial1).trial
    sx.check(set(back) == set(result), "swap reports the same attributes")
    for name in result:
        sx.check(sx.eq(list(back[name]), list(result[name])[::-1]),
                 "swap exchanges values")


@harness("D15", params=[(k, {"kind": k}) for k in ("modules", "environment")],
         budget=(60, 200), reach=["report"])
def report(sx, kind):
    """'now diff' text for one replaced record: every differing attribute is
    printed with both values"""
    from noworkflow.now.cmd import cmd_diff
    make = KINDS[kind][1]
    left = make_side(sx, make, "t1", 1, True)
    right = make_side(sx, make, "t2", 1, True)
    sx.assume(sx.eq(left[0][2], right[0][2]))
    added, removed, replaced = getattr(make_diff(kind, left, right), kind)
    sx.assume(len(replaced) == 1)
    lines = []

    def fake_print(*args):
        lines.append(args[0] if args else "")
    sx.cleanup(lambda: cmd_diff.__dict__.pop("print", None))
    cmd_diff.print = fake_print
    first, second = left[0][0], right[0][0]
    if kind == "modules":
        cmd_diff.print_replaced_attributes(replaced)
    else:
        cmd_diff.print_replaced_environment(replaced)
    text = []
    for line in lines:
        start = 0
        for index in range(len(line)):
            if line[index] == "\n":
                text.append(line[start:index])
                start = index + 1
        text.append(line[start:])
    sx.reach("report")
    for attr in ("version", "value"):
        if not hasattr(first, attr):
            continue
        old, new = getattr(first, attr), getattr(second, attr)
        line = ("    %s changed from " % attr.capitalize()
                if kind == "modules" else
                "  Environment attribute " + first.name + " changed from ")
        line = line + (str_of(old) if old else "<None>") + " to " + (
            str_of(new) if new else "<None>")
        if not sx.eq(old, new):
            sx.check(sx.or_(*[sx.eq(line, got) for got in text]),
                     "differing attribute is printed: " + attr, text=text,
                     wanted=line)


def str_of(value):
    return str(value) if isinstance(value, int) else value
