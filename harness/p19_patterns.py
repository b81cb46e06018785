"""P19: pattern queries yield exactly the matching records"""
import itertools
from datetime import datetime, timedelta

from symex.api import harness
from symex.symdb import Handle

from noworkflow.now.persistence.models import (
    Activation, CodeComponent, Evaluation, FileAccess, Trial)
from noworkflow.patterns import (
    BLANK, access, activation, code_component, evaluation, var)
from noworkflow.patterns import rules

START = datetime(2016, 4, 8, 12, 30, 5)
TABLES = {"access": (access, FileAccess), "activation": (
    activation, Activation), "evaluation": (evaluation, Evaluation),
    "code_component": (code_component, CodeComponent)}


class Facts(object):
    """Records of the trials"""

    def __init__(self, sx):
        self.sx = sx
        self.db = Handle(sx)
        self.rows = {name: [] for name in TABLES}
        for tid in ("t", "u"):
            self.db.insert(Trial, id=tid, script="s.py", start=START,
                           finish=START if tid == "t" else None, command="c", path="/w/p",
                           status="finished", main_id=1)

    def add(self, table, **values):
        values.setdefault("trial_id", "t")
        self.db.insert(TABLES[table][1], **values)
        self.rows[table].append(values)

    def access(self, number, **values):
        base = dict(id=number, name="n", mode="r", buffering="default",
                    content_hash_before=None, content_hash_after=None,
                    checkpoint=float(number), activation_id=1)
        base.update(values)
        self.add("access", **base)

    def activation(self, number, **values):
        base = dict(id=number, name="f", start_checkpoint=float(number),
                    code_block_id=None)
        base.update(values)
        self.add("activation", **base)

    def evaluation(self, number, **values):
        base = dict(id=number, checkpoint=float(number),
                    code_component_id=1, activation_id=1, repr="1",
                    member_container_id=None)
        base.update(values)
        self.add("evaluation", **base)

    def component(self, number, **values):
        base = dict(id=number, name="c", type="name", mode="r",
                    first_char_line=1, first_char_column=0,
                    last_char_line=1, last_char_column=1, container_id=None)
        base.update(values)
        self.add("code_component", **base)


class Over(object):
    """Comparison: the attribute must be greater"""

    def __init__(self, limit):
        self.limit = limit


def build(atoms, variables):
    """Query of the conjunction of the atoms"""
    result = None
    for table, args in atoms:
        rule = TABLES[table][0]
        values = {}
        for name, arg in args.items():
            if isinstance(arg, Over):
                arg = getattr(rule, name) > arg.limit
            elif type(arg) is str and arg.startswith("?"):
                arg = variables[arg[1:]]
            values[name] = arg
        query = rule(**values)
        result = query if result is None else result & query
    return result


def agree(sx, one, two):
    if isinstance(one, (datetime, timedelta)) or isinstance(
            two, (datetime, timedelta)):
        return type(one) is type(two) and one == two
    if one is None or two is None:
        return one is two
    if isinstance(one, str) != isinstance(two, str):
        return False
    if isinstance(one, str) and len(one) != len(two):
        return False
    return bool(sx.eq(one, two))


def solve(facts, atoms):
    """Oracle: (ids of the rows, bindings)"""
    sx = facts.sx
    result = []
    for rows in itertools.product(*[facts.rows[table]
                                    for table, _ in atoms]):
        binds = {}
        fine = True
        for (_, args), row in zip(atoms, rows):
            for name, arg in args.items():
                value = row[name]
                if isinstance(arg, Over):
                    fine = value is not None and bool(value > arg.limit)
                elif arg is BLANK:
                    pass
                elif type(arg) is str and arg.startswith("?"):
                    if arg[1:] in binds:
                        fine = agree(sx, binds[arg[1:]], value)
                    else:
                        binds[arg[1:]] = value
                else:
                    fine = agree(sx, arg, value)
                if not fine:
                    break
            if not fine:
                break
        if fine:
            result.append((tuple((str(row["trial_id"]), row["id"])
                                 for row in rows), binds))
    return result


def key(found):
    """Identification of the records of a result"""
    records = found if isinstance(found, tuple) else (found,)
    return tuple((str(record.trial_id), record.id) for record in records)


def collect(query):
    return [(key(found), {variable.name: value
                          for variable, value in binds.items()})
            for found, binds in query]


def compare(sx, found, expected, label):
    sx.check(sorted(rows for rows, _ in found) == sorted(
        rows for rows, _ in expected), label + ": matching records",
        found=sorted(rows for rows, _ in found),
        expected=sorted(rows for rows, _ in expected))
    wanted = dict(expected)
    for rows, binds in found:
        want = {name: value for name, value in wanted.get(rows, {}).items()
                if not name.startswith("_")}
        sx.check(sorted(binds) == sorted(want), label + ": variables",
                 found=sorted(binds), expected=sorted(want))
        for name, value in binds.items():
            sx.check(name in want and agree(sx, value, want[name]),
                     label + ": values", variable=name, found=value,
                     expected=want.get(name))


# conjunctions: "?x" is a variable, "K" and "N" are symbolic constants
QUERIES = {
    "all": [("access", {})],
    "constant": [("access", {"trial_id": "t", "name": "N"})],
    "number": [("access", {"activation_id": "K", "id": "?I"})],
    "variables": [("access", {"trial_id": "?T", "id": "?I", "name": "?N"})],
    "wildcard": [("access", {"trial_id": "t", "id": BLANK, "name": "?N",
                             "mode": BLANK})],
    "repeated": [("access", {"trial_id": "t", "name": "?N",
                             "content_hash_before": "?N"})],
    "nulls": [("access", {"trial_id": "t", "content_hash_after": "?H",
                          "content_hash_before": "?H"})],
    "null": [("access", {"content_hash_before": None, "id": "?I"})],
    "over": [("access", {"checkpoint": Over("K"), "id": "?I"})],
    "join": [("access", {"trial_id": "t", "id": "?I",
                         "activation_id": "?A"}),
             ("activation", {"trial_id": "t", "id": "?A", "name": "?N"})],
    "join name": [("access", {"trial_id": "?T", "name": "?N"}),
                  ("activation", {"trial_id": "?T", "name": "?N"})],
    "join hash": [("access", {"trial_id": "t", "id": "?I",
                              "content_hash_before": "?H"}),
                  ("access", {"trial_id": "t", "id": "?J",
                              "content_hash_after": "?H"})],
    "self": [("access", {"id": "?I", "name": "?N", "trial_id": "t"}),
             ("access", {"id": "?J", "name": "?N", "trial_id": "t"})],
    "temporary": [("access", {"id": "?I", "activation_id": "?_a",
                              "trial_id": "t"}),
                  ("activation", {"id": "?_a", "name": "N",
                                  "trial_id": "t"})],
    "over join": [("access", {"id": "?I", "checkpoint": Over("K"),
                              "activation_id": "?A", "trial_id": "t"}),
                  ("activation", {"id": "?A", "trial_id": "t"})],
    "product": [("access", {"trial_id": "t", "id": "?I"}),
                ("activation", {"trial_id": "t", "id": "?A"})],
    "three": [("access", {"trial_id": "t", "id": "?I",
                          "activation_id": "?A"}),
              ("activation", {"trial_id": "t", "id": "?A", "name": "?N"}),
              ("access", {"trial_id": "t", "id": "?J", "name": "?N"})],
    "late": [("access", {"trial_id": "t", "id": "?I",
                         "activation_id": "?A"}),
             ("activation", {"trial_id": "t", "id": "?B"}),
             ("activation", {"trial_id": "t", "id": "?A"})],
    "chain": [("activation", {"trial_id": "t", "id": "?A", "name": "?N"}),
              ("activation", {"trial_id": "t", "id": "?B", "name": "?N"}),
              ("access", {"trial_id": "t", "id": "?I",
                          "activation_id": "?A"})],
}


def fill(sx, name, atoms, count):
    """Tables with the symbolic columns that the query uses"""
    facts = Facts(sx)
    used = {column for _, args in atoms for column in args}
    for number in range(1, count + 1):
        values, prefix = {}, "access%d." % number
        if "name" in used:
            values["name"] = sx.str(prefix + "name", "ab", 1, 1)
        if "activation_id" in used:
            values["activation_id"] = None if number == count and sx.choose(
                prefix + "null", [False, True]) else sx.int(
                    prefix + "activation", 1, 2)
        for column in ("content_hash_before", "content_hash_after"):
            if column in used:
                values[column] = None if sx.choose(
                    prefix + column + ".null", [False, True]) else sx.str(
                        prefix + column, "ab", 1, 1)
        if "checkpoint" in used:
            values["checkpoint"] = sx.int(prefix + "checkpoint", 1, 3)
        facts.access(number, **values)
    facts.access(1, trial_id="u", name="a", content_hash_before="a",
                 content_hash_after="b")
    for number in range(1, count + 1):
        facts.activation(number, name=sx.str(
            "activation%d.name" % number, "ab", 1, 1)
            if "name" in used and len(atoms) > 1 else "f")
    facts.activation(1, trial_id="u", name="a")
    constants = {"K": None, "N": None}
    text = str(atoms)
    constants["K"] = sx.int("K", 0, 3)
    constants["N"] = sx.str("N", "ab", 1, 1)
    result = []
    for table, args in atoms:
        new = {}
        for column, arg in args.items():
            if isinstance(arg, Over):
                arg = Over(constants[arg.limit])
            elif type(arg) is str and arg in constants:
                arg = constants[arg]
            new[column] = arg
        result.append((table, new))
    return facts, result


def sized(count):
    result = []
    for name in sorted(QUERIES):
        result.append(("%s,2" % name, {"name": name, "count": 2}))
        result.append(("%s,3" % name, {"name": name, "count": 3},
                       {"tiers": ("thorough",)}))
    return result


@harness("P19", params=sized(2), budget=(60, 600),
         reach=["answered"])
def facts(sx, name, count):
    """Conjunctions of patterns over the tables, in any order"""
    atoms = QUERIES[name]
    tables, atoms = fill(sx, name, atoms, count)
    order = sx.choose("order", list(itertools.permutations(
        range(len(atoms)))))
    atoms = [atoms[i] for i in order]
    names = {arg[1:] for _, args in atoms for arg in args.values()
             if type(arg) is str and arg.startswith("?")}
    variables = {n: var(n) for n in sorted(names)}
    query = build(atoms, variables)
    expected = solve(tables, atoms)
    use = sx.choose("use", ["again", "abandon", "another", "keep"])
    if use == "abandon":
        for _ in query:
            break
        for variable in variables.values():
            sx.check(variable.bound is BLANK, "no bindings after the end",
                     variable=variable.name)
        found = collect(query)
    elif use == "keep":
        # another query with the same variables, while the first one runs
        iterator = iter(query)
        other = {n: var(n) for n in sorted(names)}
        first = next(iterator, None)
        found = collect(build(atoms, other))
        rest = [] if first is None else [(key(first[0]), {
            v.name: value for v, value in first[1].items()})]
        rest += collect(iterator)
        compare(sx, rest, expected, "interleaved")
    else:
        found = collect(query)
    compare(sx, found, expected, "query")
    if use in ("again", "another"):
        if use == "another":
            query = build(atoms, variables)
        compare(sx, collect(query), expected, "again")
    for variable in variables.values():
        sx.check(variable.bound is BLANK, "no bindings are left",
                 variable=variable.name)
    sx.reach("answered" if expected else "empty")


@harness("P19", params=[("%d" % i, {"part": i}) for i in range(4)],
         budget=(60, 300), reach=["answered"])
def shared(sx, part):
    """Patterns that are used alone and then in conjunctions"""
    name = ("three", "chain", "join", "late")[part]
    tables, atoms = fill(sx, name, QUERIES[name], 2)
    names = {arg[1:] for _, args in atoms for arg in args.values()
             if type(arg) is str and arg.startswith("?")}
    variables = {n: var(n) for n in sorted(names)}
    parts = [build([atom], variables) for atom in atoms]
    which = sx.choose("which", list(range(len(parts))))
    compare(sx, collect(parts[which]), solve(tables, [atoms[which]]),
            "pattern")
    query = parts[0]
    for other in parts[1:]:
        query = query & other
    expected = solve(tables, atoms)
    compare(sx, collect(query), expected, "conjunction")
    compare(sx, collect(parts[which]), solve(tables, [atoms[which]]),
            "pattern after the conjunction")
    sx.reach("answered")


class Rules(object):
    """Derivations of the rules, by their definitions"""

    def __init__(self, sx, wanted):
        self.sx = sx
        self.facts = facts_ = Facts(sx)
        names = "name" in wanted
        modes = "mode" in wanted
        times = "time" in wanted

        def text(key, fixed):
            if not names or "some" in wanted and key not in (
                    "function2", "code3", "file1"):
                return fixed
            return sx.str(key, "ab", 1, 1)

        def moment(key, fixed):
            if not times or "few" in wanted and key not in (
                    "start2", "start3", "end2"):
                return fixed
            return sx.int(key, 1, 3)
        callers = [None, 1, sx.int("caller3", 1, 2)
                   if "tree" in wanted else 2]
        for number in (1, 2, 3):
            facts_.evaluation(number, activation_id=callers[number - 1],
                              checkpoint=moment("end%d" % number,
                                                5 - number),
                              code_component_id=number)
            facts_.component(number, name=text("code%d" % number, "c"),
                             mode=sx.choose("mode%d" % number, ["r", "w"])
                             if modes and number == 1 else "r")
        last = 3 if "tree" not in wanted or sx.choose(
            "called3", [True, False]) else 2
        for number in range(1, last + 1):
            facts_.activation(number, name=text("function%d" % number, "f"),
                              start_checkpoint=moment(
                                  "start%d" % number, number))
        facts_.evaluation(1, trial_id="u", activation_id=None)
        facts_.activation(1, trial_id="u", name="a")
        if "access" in wanted:
            for number in (1, 2):
                facts_.access(
                    number, name=text("file%d" % number, "n"),
                    mode=sx.choose("access%d.mode" % number, [
                        "r", "w", "a+"]) if modes else "r",
                    checkpoint=moment("access%d.moment" % number, number),
                    activation_id=sx.int("access%d.activation" % number,
                                         1, last)
                    if "tree" in wanted else number)
            facts_.access(1, trial_id="u", name="a")
        else:
            facts_.access(1, name="n")

    def rows(self, table):
        return [(str(row["trial_id"]), row)
                for row in self.facts.rows[table]]

    def row(self, table, tid, number):
        for other, row in self.rows(table):
            if other == tid and bool(self.sx.eq(row["id"], number)):
                return row
        return None

    def stack(self, tid, called):
        row = self.row("evaluation", tid, called)
        if row is None:
            return None
        if row["activation_id"] is None:
            return []
        above = self.stack(tid, row["activation_id"])
        return None if above is None else [row["activation_id"]] + above

    def names(self, table):
        if table == "evaluation":
            return [(t, e["id"], c["name"]) for t, e in
                    self.rows("evaluation")
                    for o, c in self.rows("code_component") if t == o
                    and bool(self.sx.eq(e["code_component_id"], c["id"]))]
        return [(t, row["id"], row["name"]) for t, row in self.rows(table)]

    def modes(self, values):
        return [(t, row) for t, row in self.rows("access")
                if row["mode"] in values]

    def modes_of(self, model):
        if model == "access":
            return [(t, r["id"], r["mode"]) for t, r in self.rows("access")]
        codes = self.rows("code_component")
        if model in ("code_component", "code_block"):
            return [(t, r["id"], r["mode"]) for t, r in codes]
        return [(t, e["id"], c["mode"]) for t, e in self.rows("evaluation")
                for o, c in codes if t == o and e["code_component_id"]
                == c["id"]]

    def times(self, model):
        """(trial, id, moment) of a model"""
        if model in ("start", "activation"):
            return [(t, r["id"], r["start_checkpoint"])
                    for t, r in self.rows("activation")]
        if model in ("finish", "evaluation"):
            return [(t, r["id"], r["checkpoint"])
                    for t, r in self.rows("evaluation")]
        return [(t, r["id"], r["checkpoint"])
                for t, r in self.rows("access")]

    def successors(self, before, after):
        result = []
        moments = "evaluation" if after == "activation" else after
        for t, one, first in self.times(before):
            for o, two, second in self.times(moments):
                if t == o and bool(first <= second):
                    if after == "activation" and self.row(
                            "activation", t, two) is None:
                        continue
                    result.append((t, one, two))
        return result


ANY = object()     # argument that the rule does not use
READ, WRITE = ("r", "r+", "a+"), ("w", "w+", "x", "x+", "a", "a+")


def called(r):
    return [(t, e["activation_id"], e["id"]) for t, e in
            r.rows("evaluation") if r.row("activation", t, e["id"])]


def stacks(r):
    return [(t, e["id"], r.stack(t, e["id"])) for t, e in
            r.rows("evaluation") if r.stack(t, e["id"]) is not None]


def access_stacks(r):
    return [(t, a["id"], [a["activation_id"]] + r.stack(
        t, a["activation_id"])) for t, a in r.rows("access")
        if r.stack(t, a["activation_id"]) is not None]


def models(r, what):
    result = []
    for name, table in [("code_component", "code_component"),
                        ("code_block", "code_component"),
                        ("evaluation", "evaluation"),
                        ("activation", "activation"),
                        ("access", "access")]:
        result += [(t, name, i, n) for t, i, n in r.names(table)]
    return result + [(t, "trial", ANY, "s.py") for t in ("t", "u")]


# rule: (columns that it needs, number of arguments, derivations)
RULES = {
    "activation_name": ("name", lambda r: r.names("activation")),
    "evaluation_name": ("name", lambda r: r.names("evaluation")),
    "code_name": ("name", lambda r: r.names("code_component")),
    "access_name": ("name access", lambda r: r.names("access")),
    "name": ("some name access", lambda r: models(r, "name")),
    "activation_id": ("tree", lambda r: [
        (t, e["activation_id"], e["id"]) for t, e in r.rows("evaluation")]),
    "is_activation_id": ("tree", lambda r: [
        (t, a["id"]) for t, a in r.rows("activation")]),
    "called_activation_id": ("tree", called),
    "activation_stack_id": ("tree", stacks),
    "indirect_activation_id": ("tree", lambda r: [
        (t, caller, i) for t, i, stack in stacks(r) for caller in stack]),
    "access_id": ("tree access", lambda r: [
        (t, a["activation_id"], a["id"]) for t, a in r.rows("access")]),
    "access_stack_id": ("tree access", access_stacks),
    "indirect_access_id": ("tree access", lambda r: [
        (t, function, i) for t, i, stack in access_stacks(r)
        for function in stack]),
    "file_read_id": ("mode access", lambda r: [
        (t, a["id"]) for t, a in r.modes(READ)]),
    "file_written_id": ("mode access", lambda r: [
        (t, a["id"]) for t, a in r.modes(WRITE)]),
    "file_read": ("mode name access", lambda r: [
        (t, a["name"]) for t, a in r.modes(READ)]),
    "file_written": ("mode name access", lambda r: [
        (t, a["name"]) for t, a in r.modes(WRITE)]),
    "access_mode_id": ("mode access", lambda r: [
        (t, a["id"], a["mode"]) for t, a in r.rows("access")]),
    "timestamp_id": ("few time access", lambda r: [
        (t, i, moment, model) for model in (
            "start", "finish", "evaluation", "activation", "access")
        for t, i, moment in r.times(model)] + [
            (t, 0, START, model) for t in ("t", "u")
            for model in ("start", "finish") if (t, model) != (
                "u", "finish")] + [("u", 0, None, "finish")]),
    "duration_id": ("few time", lambda r: [
        (t, i, end - start) for t, i, start in r.times("activation")
        for o, j, end in r.times("evaluation") if t == o and i == j] + [
            ("t", 0, timedelta(0))]),
    "temporal_activation_influence_id": ("few time", lambda r: r.successors(
        "activation", "activation")),
}


def stack_names(r, tid, stack):
    """Names of the activations of a stack"""
    result = []
    for number in stack:
        row = r.row("activation", tid, number)
        if row is None:
            return None
        result.append(row["name"])
    return result


def both(r):
    """(trial, id, name) of activations and of evaluations"""
    return r.names("activation") + r.names("evaluation")


def at(r, names, tid, number):
    return [n for t, i, n in names if t == tid and bool(
        r.sx.eq(i, number))]


def influences(r):
    """Read accesses that happened before written ones, whose activations
    are in order"""
    order = r.successors("activation", "activation")
    return [(t, one["id"], two["id"]) for t, one in r.modes(READ)
            for o, two in r.modes(WRITE)
            if t == o and bool(one["checkpoint"] <= two["checkpoint"])
            for p, f1, f2 in order if p == t
            and bool(r.sx.eq(f1, one["activation_id"]))
            and bool(r.sx.eq(f2, two["activation_id"]))]


RULES.update({
    "activation_stack": ("some name tree", lambda r: [
        (t, n, stack_names(r, t, stack)) for t, i, stack in stacks(r)
        for n in at(r, both(r), t, i)
        if stack_names(r, t, stack) is not None]),
    "indirect_activation": ("some name tree", lambda r: [
        (t, m, n) for t, i, stack in stacks(r)
        for n in at(r, both(r), t, i) for caller in stack
        for m in at(r, r.names("activation"), t, caller)]),
    "access_stack": ("some name tree access", lambda r: [
        (t, n, stack_names(r, t, stack)) for t, i, stack in access_stacks(r)
        for n in at(r, r.names("access"), t, i)
        if stack_names(r, t, stack) is not None]),
    "indirect_access": ("some name tree access", lambda r: [
        (t, m, n) for t, i, stack in access_stacks(r)
        for n in at(r, r.names("access"), t, i) for caller in stack
        for m in at(r, r.names("activation"), t, caller)]),
    "temporal_activation_influence": ("few some name time", lambda r: [
        (t, m, n) for t, i, j in r.successors("activation", "activation")
        for m in at(r, r.names("activation"), t, i)
        for n in at(r, r.names("activation"), t, j)]),
    "access_influence_id": ("few mode time access", influences),
    "duration": ("few some name time", lambda r: [
        (t, n, end - start) for t, i, start in r.times("activation")
        for o, j, end in r.times("evaluation") if t == o and i == j
        for n in at(r, r.names("activation"), t, i)] + [
            ("t", "trial", timedelta(0))]),
    "mode_id": ("some mode access", lambda r: [
        (t, model, i, m) for model in MODELS[:5]
        for t, i, m in r.modes_of(model)]),
    "activation_code_id": None,
})
del RULES["activation_code_id"]

MODELS = ("code_component", "code_block", "evaluation", "activation",
          "access", "trial")
MOMENTS = ("start", "finish", "evaluation", "activation", "access")
# arguments: trial, number, text, list or one of the options
ARGS = {
    "name": ("t", MODELS, "i", "n"), "timestamp_id": ("t", "i", "i",
                                                      MOMENTS),
    "activation_stack_id": "til", "access_stack_id": "til",
    "access_mode_id": ("t", "i", ("r", "w", "a+")), "file_read": "tn",
    "file_written": "tn", "activation_stack": "tnL",
    "indirect_activation": "tnn", "access_stack": "tnL",
    "indirect_access": "tnn", "temporal_activation_influence": "tnn",
    "duration": "tni",
    "mode_id": ("t", MODELS[:5], "i", ("r", "w", "a+")),
}


def constant(sx, key, kind):
    """Constant for an argument"""
    if kind == "t":
        return sx.choose(key, ["t", "u"])
    if kind == "l":
        return sx.choose(key, [[1], [2, 1], [], [1, 2]])
    if kind == "L":
        return sx.choose(key, [["f"], ["a", "f"], []])
    if kind == "n":
        return sx.str(key, "ab", 1, 1)
    if kind == "i":
        return sx.int(key, 1, 3)
    return sx.choose(key, list(kind))


def ruled():
    result = []
    for name in sorted(RULES):
        slow = "access" in RULES[name][0] and len(RULES[name][0]) > 11 or (
            "few" in RULES[name][0])
        result.append((name, {"name": name, "wide": not slow}))
        if slow:
            result.append((name + ",wide", {"name": name, "wide": True},
                           {"tiers": ("thorough",)}))
    return result


@harness("P19", params=ruled(), budget=(90, 600), reach=["answered"])
def rule(sx, name, wide):
    """Rules with any combination of variables, wildcards and constants"""
    columns, derive = RULES[name]
    tables = Rules(sx, columns)
    derivations = derive(tables)
    function = getattr(rules, name)
    signature = ARGS.get(name) or (
        "tin" if name.endswith("_name") else
        "ti" if name in ("is_activation_id", "file_read_id",
                         "file_written_id") else "tii")
    kinds = [sx.choose("kind%d" % i, ["variable", "constant", "wildcard"]
                       if i else ["constant", "variable"] if wide
                       else ["constant"])
             for i in range(len(signature))]
    args, variables = [], {}
    for index, kind in enumerate(kinds):
        if kind == "variable":
            variables[index] = var("V%d" % index)
            args.append(variables[index])
        elif kind == "constant":
            args.append(constant(sx, "constant%d" % index,
                                 signature[index]))
        else:
            args.append(BLANK)
    expected = []
    for derivation in derivations:
        if all(kinds[i] != "constant" or same_value(sx, args[i], value)
               for i, value in enumerate(derivation)):
            expected.append([derivation[i] for i in sorted(variables)])
    query = function(*args)
    for turn in ("first", "second"):
        found = []
        for _, binds in query:
            sx.check(not set(binds) - set(variables.values()),
                     "variables of the rule", found=[v.name for v in binds])
            found.append([binds.get(variables[i], ANY)
                          for i in sorted(variables)])
        left = list(expected)
        for item in found:
            position = next((i for i, other in enumerate(left) if len(
                other) == len(item) and all(same_value(sx, a, b)
                                            for a, b in zip(item, other))),
                None)
            sx.check(position is not None, turn + ": derivations that hold",
                     found=found, expected=expected)
            if position is not None:
                del left[position]
        sx.check(not left, turn + ": every derivation", missing=left,
                 found=found)
        for variable in variables.values():
            sx.check(variable.bound is BLANK, turn + ": no bindings are left",
                     variable=variable.name)
    sx.reach("answered")


def same_value(sx, one, two):
    if one is ANY or two is ANY:
        return True
    if isinstance(one, list) or isinstance(two, list):
        return isinstance(one, list) and isinstance(two, list) and len(
            one) == len(two) and all(
                same_value(sx, a, b) for a, b in zip(one, two))
    if str(type(one)).find("UUID") >= 0 or str(type(two)).find("UUID") >= 0:
        return str(one) == str(two)
    return agree(sx, one, two)
