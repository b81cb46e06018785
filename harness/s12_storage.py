"""S12: collected records are stored once, with their final values"""
import itertools

from symex.api import harness
from symex import trial
from symex.symdb import Handle

from noworkflow.now.persistence import lightweight as lw
from noworkflow.now.persistence.lightweight import base


TRIAL = 7


class Kind(object):
    """How the collection creates and completes records of a class"""

    def __init__(self, cls, args, finish=None, shared=False, changes=()):
        self.cls = cls
        self.args = args            # (sx, index) -> arguments of add
        self.finish = finish        # completes the record
        self.shared = shared
        self.changes = changes      # attributes set before it is complete


def number(sx, name):
    return sx.int(name, 1, 9)


def evaluation_args(sx, index):
    return (TRIAL, number(sx, "code%d" % index), 0, None,
            sx.str("repr%d" % index, "ab", 1, 1))


def finish_evaluation(sx, obj, index):
    obj.checkpoint = number(sx, "end%d" % index)
    obj.repr = sx.str("value%d" % index, "xy", 1, 1)


def activation_args(sx, index):
    evaluation = lw.EvaluationLW(index + 1, TRIAL, 1, 0, None, None)
    return (evaluation, TRIAL, "f", number(sx, "start%d" % index), None)


def finish_activation(sx, obj, index):
    obj.evaluation.checkpoint = number(sx, "end%d" % index)


def access_args(sx, index):
    return (TRIAL, sx.str("name%d" % index, "ab", 1, 1),
            number(sx, "moment%d" % index))


def finish_access(sx, obj, index):
    obj.content_hash_after = sx.str("after%d" % index, "01", 1, 1)
    obj.done = True


KINDS = {
    "evaluation": Kind(lw.EvaluationLW, evaluation_args, finish_evaluation,
                       changes=("repr", "member_container_id")),
    "activation": Kind(lw.ActivationLW, activation_args, finish_activation,
                       shared=True, changes=("code_block_id",)),
    "file_access": Kind(lw.FileAccessLW, access_args, finish_access,
                        changes=("content_hash_before", "mode", "buffering",
                                 "activation_id")),
    "dependency": Kind(lw.DependencyLW, lambda sx, i: (
        TRIAL, 1, number(sx, "from%d" % i), 1, number(sx, "to%d" % i),
        "assign", False, None, None, None)),
    "member": Kind(lw.MemberLW, lambda sx, i: (
        TRIAL, 1, number(sx, "in%d" % i), 1, number(sx, "item%d" % i),
        sx.str("key%d" % i, "ab", 0, 1), number(sx, "moment%d" % i), "Put")),
    "code_component": Kind(lw.CodeComponentLW, lambda sx, i: (
        TRIAL, sx.str("name%d" % i, "ab", 0, 1), "name", "r",
        number(sx, "line%d" % i), 0, number(sx, "last%d" % i), 1, -1)),
    "environment": Kind(lw.EnvironmentAttrLW, lambda sx, i: (
        TRIAL, sx.str("name%d" % i, "ab", 1, 1),
        sx.str("value%d" % i, "ab", 0, 1))),
    "argument": Kind(lw.ArgumentLW, lambda sx, i: (
        TRIAL, sx.str("name%d" % i, "ab", 1, 1),
        sx.str("value%d" % i, "ab", 0, 1))),
    "composition": Kind(lw.CompositionLW, lambda sx, i: (
        TRIAL, number(sx, "part%d" % i), number(sx, "whole%d" % i),
        "value", number(sx, "pos%d" % i), None)),
    "module": Kind(lw.ModuleLW, lambda sx, i: (
        TRIAL, sx.str("name%d" % i, "ab", 1, 1), "1.0", "m.py",
        number(sx, "block%d" % i), False, "/m.py")),
    "code_block": Kind(lw.CodeBlockLW, lambda sx, i: (
        i + 1, TRIAL, "", False, sx.str("doc%d" % i, "ab", 0, 1), "f",
        sx.str("hash%d" % i, "01", 1, 1)), shared=True),
}


def steps():
    """Lengths of the sequences"""
    result = []
    for name in sorted(KINDS):
        simple = KINDS[name].finish is None
        for length, tiers in [
                (4, ("quick", "thorough")),
                (5, ("quick", "thorough") if simple else ("thorough",)),
                (6, ("thorough",))]:
            result.append(("%s,%d" % (name, length), {
                "kind": name, "length": length}, {"tiers": tiers}))
    return result


def verify(sx, db, model, objects, removed, label):
    """Rows of the table are the records"""
    rows = db.rows(model)
    keys = [(str(row["trial_id"]), row["id"]) for row in rows]
    expected = {}
    for obj in objects:
        if not any(obj is other for other in removed):
            expected[(str(obj["trial_id"]), obj["id"])] = obj
    sx.check(sorted(keys) == sorted(expected), label + ": every record once",
             stored=sorted(keys), expected=sorted(expected))
    for key, row in zip(keys, rows):
        obj = expected[key]
        for name in obj.keys():
            if name not in row:
                continue
            if name.endswith("trial_id"):
                sx.check(str(row[name]) == str(obj[name]),
                         label + ": trial", record=key)
            elif row[name] is not obj[name]:
                value = obj[name]
                if type(row[name]) is str and type(value) is int:
                    value = str(value)      # textual column
                sx.check(sx.eq(row[name], value), label + ": final values",
                         record=key, attribute=name, stored=row[name],
                         expected=obj[name])


@harness("S12", params=steps(), budget=(40, 300), reach=["stored"])
def store(sx, kind, length):
    """Sequences of additions, changes, completions, removals and saves"""
    trial.prepare()
    db = Handle(sx)
    spec = KINDS[kind]
    cls = base.SharedObjectStore if spec.shared else base.ObjectStore
    records = cls(spec.cls)
    objects, open_, removed, saved = [], [], [], []
    stored = set()
    for step in range(length):
        options = ["add", "save"]
        if open_:
            options += ["finish", "change"]
        if [o for o in objects if o not in removed and id(o) not in stored]:
            options.append("remove")
        action = sx.choose("action%d" % step, options)
        if action == "add":
            index = len(objects)
            obj = records.add_object(*spec.args(sx, index))
            sx.check(obj not in objects, "a new record")
            objects.append(obj)
            if spec.finish is not None:
                open_.append((index, obj))
        elif action == "save":
            records.do_store(partial=True)
            stored.update(id(o) for o in objects)
        elif action == "finish":
            which = sx.choose("which%d" % step, list(range(len(open_))))
            index, obj = open_.pop(which)
            spec.finish(sx, obj, index)
        elif action == "change":
            which = sx.choose("which%d" % step, list(range(len(open_))))
            index, obj = open_[which]
            name = sx.choose("what%d" % step, list(spec.changes))
            setattr(obj, name, number(sx, "changed%d" % step)
                    if name.endswith("_id")
                    else sx.str("changed%d" % step, "pq", 1, 1))
        else:
            left = [o for o in objects
                    if o not in removed and id(o) not in stored]
            which = sx.choose("which%d" % step, list(range(len(left))))
            obj = left[which]
            records.remove(obj)
            removed.append(obj)
            open_ = [pair for pair in open_ if pair[1] is not obj]
    records.do_store(partial=False)
    verify(sx, db, spec.cls.model, objects, removed, kind)
    if objects:
        sx.reach("stored")


# scripts of the trials
TRIALS = {
    "calls": """
def f(x, y=1):
    if x > 0:
        return x + y
    return y
a = inp("a")
b = f(a) + f(b=2, x=a) if False else f(a, 2)
out(b)
""",
    "generator": """
def gen(n):
    i = 0
    while i < n:
        yield i
        i += 1
a = inp("a")
x, y = gen(2)
for v in gen(2):
    out(v + a)
""",
    "classes": """
class A(object):
    def __init__(self, v):
        self.v = v
    def get(self):
        return self.v
o = A(inp("a"))
o.v += 1
out(o.get())
""",
    "collections": """
a = inp("a")
x = [a, 2]
x[0] = a + 1
d = {"k": x, "b": [i for i in x]}
d["k"][1] = a
out(d["k"])
""",
    "exceptions": """
def f(x):
    if x > 0:
        raise ValueError(x)
    return x
a = inp("a")
try:
    b = f(a)
except ValueError as e:
    b = 1
try:
    open("absent")
except Exception:
    b += 1
out(b)
""",
    "closures": """
def outer(n):
    def inner(x):
        return x + n
    return inner
a = inp("a")
f = outer(a)
out(f(1))
out((lambda z: z * 2)(a))
""",
}
STORES = ("code_components", "evaluations", "activations", "dependencies",
          "members", "file_accesses")


class Saving(object):
    """Clock of a trial that has partial saves at some moments"""

    def __init__(self, sx, moments):
        self.sx = sx
        self.moments = moments
        self.steps = itertools.count(1)
        self.last = 0
        self.storing = False
        self.objects = {name: [] for name in STORES}

    def mirror(self, name, store):
        """Keep the records that the store creates and does not remove"""
        objects = self.objects[name]
        create, remove = store.cls, store.remove

        def forget(value):
            for index, obj in enumerate(objects):
                if obj is value:
                    del objects[index]
                    break
            remove(value)
        add, add_object = store.add, store.add_object

        def add_(*args):
            before = set(store.store)
            result = add(*args)
            objects.append(store.store[next(
                key for key in store.store if key not in before)])
            return result

        def add_object_(*args):
            result = add_object(*args)
            objects.append(result)
            return result
        store.add, store.add_object, store.remove = add_, add_object_, forget

    def install(self, meta):
        collector = meta.execution.collector
        for name in STORES:
            self.mirror(name, getattr(meta, name + "_store"))
        collector.get_time = self
        store = collector.store

        def wrapper(*args, **kwargs):
            self.storing = True
            try:
                return store(*args, **kwargs)
            finally:
                self.storing = False
        collector.store = wrapper
        collector.partial_save_frequency = 500
        collector.last_partial_save = 0

    def __call__(self):
        """Moment. Partial saves happen when much time passed since the last
        one"""
        if self.storing:
            return self.last
        self.last += 1
        step = next(self.steps)
        for moment in self.moments:
            if bool(self.sx.eq(moment, step)):
                self.last += 1000
                self.sx.reach("partial save")
        return self.last


def trials():
    result = []
    for name in sorted(TRIALS):
        result.append((name + ",1", {"name": name, "saves": 1}))
        result.append((name + ",2", {"name": name, "saves": 2},
                       {"tiers": ("thorough",)}))
    return result


@harness("S12", params=trials(), budget=(60, 300), reach=["partial save"])
def saved_trial(sx, name, saves):
    """Records of a trial with partial saves at symbolic moments are stored
    once, with their last values"""
    sx.small_values = (-20, 20)
    value = sx.int("a", 0, 1)
    moments = [sx.int("save%d" % i, 1, 120) for i in range(saves)]
    if saves > 1:
        sx.assume(sx.and_(moments[0] < moments[1],
                          moments[1] <= moments[0] + 6))
    trial.prepare()
    db = Handle(sx)
    saving = Saving(sx, moments)
    run = trial.capture(sx, TRIALS[name], inp=lambda _: value, _clock=saving)
    meta = run.metascript
    meta.deployment.store_provenance()
    meta.definition.store_provenance()
    meta.execution.store_provenance()
    for kind in STORES:
        verify(sx, db, getattr(meta, kind + "_store").cls.model,
               saving.objects[kind], [], kind)
