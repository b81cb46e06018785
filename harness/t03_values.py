"""T03: recorded evaluations describe what the script really computed"""
from symex.api import harness
from symex import trial
from symex.models import to_repr

from harness.flows import FLOWS
from harness.recorded import differ
from harness.tracer import Trace

# types of components without a value of their own in the script
OPAQUE = {"class_def", "function_def", "genexpcomp", "exception"}


class Captured(object):
    """Evaluations recorded by the collection"""

    def __init__(self, run, code):
        meta = run.metascript
        self.lines = code.split("\n")
        self.components = {
            c.id: c for c in meta.code_components_store.values()}
        self.activations = {a.id: a for a in meta.activations_store.values()}
        self.evaluations = {e.id: e for e in meta.evaluations_store.values()}
        self.members = {}
        for member in meta.members_store.values():
            self.members.setdefault(member.collection_id, []).append(member)

    def position(self, component):
        """Position without the parentheses around it"""
        if component is None or component.first_char_line < 0:
            return None
        first = [component.first_char_line, component.first_char_column]
        last = [component.last_char_line, component.last_char_column]

        def char(where, delta):
            line = self.lines[where[0] - 1]
            column = where[1] + delta
            return line[column] if 0 <= column < len(line) else ""
        while component.type not in ("genexpcomp", "tuple") and (
                char(first, 0) == "(" and char(last, -1) == ")"
                and self.matched(first, last)):
            first[1] += 1
            last[1] -= 1
        return tuple(first + last)

    def matched(self, first, last):
        """The parentheses at both ends belong together"""
        if first[0] != last[0]:
            return False
        depth = 0
        for char in self.lines[first[0] - 1][first[1]:last[1] - 1]:
            depth += {"(": 1, ")": -1}.get(char, 0)
            if depth == 0:
                return False
        return True


def tasks():
    return [(name, {"name": name}) for name in sorted(FLOWS)]


# constructs known to be recorded in another way
QUIRKS = {
    "unpacked-members": ("""
a = inp("a")
l = [a, 1]
x = [*l, 2]
""", {"a": (1000, 5000)}),
}


def check_values(sx, code, spec):
    sx.small_values = (-20, 20)
    inputs = {key: sx.int(key, low, high)
              for key, (low, high) in sorted(spec.items())}
    trace = Trace(code, trial.PATH + "/script.py",
                  to_repr if sx.symbolic else repr)
    plain = trial.plain(sx, code, _tree=trace.tree,
                        inp=lambda key: inputs[key], **trace.names())
    run = trial.capture(sx, code, inp=lambda key: inputs[key])
    sx.check(trial.same(sx, plain.error, run.error),
             "same exception", plain=plain.error, captured=run.error)
    found = Captured(run, code)
    compare(sx, trace, found)


@harness("T03", params=tasks(), budget=(20, 200), reach=["values"])
def values(sx, name):
    """Captured run of a script compared to a plain run that reports the
    values of its expressions (symbolic inputs)"""
    check_values(sx, *FLOWS[name])


@harness("T03", params=[(name, {"name": name}) for name in sorted(QUIRKS)],
         budget=(15, 30))
def quirk(sx, name):
    """Constructs that are known to be recorded in another way"""
    check_values(sx, *QUIRKS[name])


def compare(sx, trace, found):
    recorded = {}
    for evaluation in found.evaluations.values():
        component = found.components.get(evaluation.code_component_id)
        position = found.position(component)
        if position is None or component.type in OPAQUE:
            continue
        key = (position, "w" if component.mode.startswith("w") else "r")
        recorded.setdefault(key, []).append(evaluation)
    frames = {}
    for position, events in sorted(trace.events.items()):
        if position in trace.tracing.skip:
            continue    # read and written
        kind = events[0].kind
        store = kind in ("Store", "Param")
        evaluations = (recorded.get((position, "w" if store else "r")) or
                       recorded.get((position, "r" if store else "w")) or [])
        if kind == "Lambda":
            evaluations = [e for e in evaluations
                           if e.id not in found.activations]
        info = {"position": position, "kind": kind,
                "expected": [e.repr for e in events],
                "recorded": [e.repr for e in evaluations]}
        sx.check(len(evaluations) == len(events),
                 "every evaluation is recorded", **info)
        for event, evaluation in zip(events, evaluations):
            same_activation(sx, event, evaluation, found, frames)
            if event.repr is None:
                continue
            sx.check(sx.not_(differ(sx, event.repr, evaluation.repr)),
                     "recorded value", **info)
            sx.reach("values")
            if kind in ("List", "Tuple", "Set", "Dict"):
                members(sx, event, evaluation, found)
    activations(sx, trace, found, frames)


def same_activation(sx, event, evaluation, found, frames):
    """Evaluations of a frame belong to a single activation"""
    frame = event.frame
    if frame is None or frame.inner:
        return
    activation = evaluation.activation_id
    known = frames.setdefault(frame, activation)
    sx.check(known == activation, "activation of the evaluation",
             block=frame.block, activation=activation, first=known,
             evaluation=evaluation.id)


def activations(sx, trace, found, frames):
    """Activations are nested as the calls were"""
    numbers = list(frames.values())
    sx.check(len(set(numbers)) == len(numbers),
             "each call has its own activation", activations=numbers)
    scripts = {number: frame for frame, number in frames.items()}
    for frame, number in frames.items():
        activation = found.activations.get(number)
        sx.check(activation is not None, "recorded activation",
                 block=frame.block)
        if frame.block is None:
            continue
        block = found.components.get(activation.code_block_id)
        sx.check(found.position(block) == frame.block
                 or block.type == "function_def"
                 and block.first_char_line <= frame.block[0]
                 and block.last_char_line == frame.block[2],
                 "definition of the activation", block=frame.block,
                 recorded=block.name)
        parent = frame.parent
        if frame.generator or parent is None or parent not in frames:
            continue
        current = found.evaluations[number].activation_id
        while current and current not in scripts:
            current = found.evaluations[current].activation_id
        sx.check(current == frames[parent], "caller of the activation",
                 block=frame.block, recorded=current,
                 expected=frames[parent])
        if frame.result is not None and activation.name != "__init__":
            sx.check(sx.not_(differ(
                sx, frame.result, found.evaluations[number].repr)),
                     "returned value", expected=frame.result,
                     recorded=found.evaluations[number].repr)


def members(sx, event, evaluation, found):
    """Members recorded for a collection are its items"""
    recorded = []
    for member in found.members.get(evaluation.id, []):
        if member.key.startswith("[") and (
                member.checkpoint <= evaluation.checkpoint):
            recorded.append((
                member.key, found.evaluations[member.member_id].repr))
    info = {"expected": event.items, "recorded": recorded,
            "text": found.components[evaluation.code_component_id].name}

    known = [("T03-unpacked-members", True)] if "*" in info["text"] else []

    def same(left, right):
        return sx.not_(differ(sx, left, right))
    for key, value in event.items:
        sx.check(sx.or_(*[
            sx.and_(same(key, key2), same(value, value2))
            for key2, value2 in recorded]), "item is a member", known=known,
            **info)
    for index, (key, value) in enumerate(recorded):
        replaced = [same(key, key2) for key2, _ in recorded[index + 1:]]
        sx.check(sx.or_(*([
            sx.and_(same(key, key2), same(value, value2))
            for key2, value2 in event.items] + [
                sx.or_(*replaced)])),
                 "member is an item", known=known, **info)
