"""T02: recorded dependencies cover every influence on a value"""
from symex.api import harness
from symex import trial

from harness.recorded import differ
from harness.flows import FLOWS, QUIRK_FLOWS, KNOWN


class Recording(object):
    """Captured run, with the evaluations of its inputs and outputs"""

    def __init__(self, sx, code, values):
        self.sources = {}
        self.outs = []
        import builtins

        def inp(name):
            collector = getattr(builtins, "__noworkflow__")
            self.sources[name] = collector.last_activation.evaluation
            return values[name]

        def out(*args):
            collector = getattr(builtins, "__noworkflow__")
            self.outs.append((collector.last_activation.evaluation,
                              [trial.snapshot(v) for v in args]))
        self.run = trial.capture(sx, code, inp=inp, out=out)
        meta = self.run.metascript
        self.evaluations = list(meta.evaluations_store.values())
        self.by_id = {ev.id: ev for ev in self.evaluations}
        self.dependencies = list(meta.dependencies_store.values())
        self.next = {}
        for dep in self.dependencies:
            self.next.setdefault(dep.dependent_id, []).append(
                dep.dependency_id)
        for member in meta.members_store.values():
            self.next.setdefault(member.collection_id, []).append(
                member.member_id)
        self.trace = [ev.code_component_id for ev in self.evaluations]

    def reaches(self, evaluation, source):
        """Do the records lead from evaluation to source?"""
        seen, todo = set(), [evaluation.id]
        while todo:
            current = todo.pop()
            if current == source.id:
                return True
            if current in seen:
                continue
            seen.add(current)
            todo.extend(self.next.get(current, []))
            same = self.by_id.get(current)
            if same is not None:
                todo.append(same.member_container_id)
        return False

    def well_formed(self, sx):
        for dep in self.dependencies:
            sx.check(dep.dependent_id in self.by_id
                     and dep.dependency_id in self.by_id,
                     "dependencies connect recorded evaluations")
            sx.check(dep.trial_id == self.run.metascript.trial_id,
                     "dependencies of the trial")


def tasks():
    result = []
    for name, (_, spec) in sorted(FLOWS.items()):
        for source in sorted(spec):
            result.append(("%s,%s" % (name, source),
                           {"name": name, "source": source}))
    return result


def known_loss(name, record, evaluation):
    """Known findings that explain a missing dependency of the evaluation"""
    text = component(record, evaluation)
    for kid, parts in KNOWN.get(name, []):
        for part in parts:
            if text == part or text.startswith((part + ".", part + "[")) or (
                    part.startswith("out(") and text.startswith(part)):
                return [(kid, True)]
    return []


def context(record, evaluation):
    """Where the evaluation happened: components of its activations"""
    result = [evaluation.code_component_id]
    while evaluation.activation_id:
        evaluation = record.by_id.get(evaluation.activation_id)
        if evaluation is None:
            break
        result.append(evaluation.code_component_id)
    return result


def twin_runs(sx, code, spec, source):
    sx.small_values = (-20, 20)
    values = {key: sx.int(key, low, high)
              for key, (low, high) in sorted(spec.items())}
    low, high = spec[source]
    other = dict(values)
    other[source] = sx.int(source + "'", low, high)
    return Recording(sx, code, values), Recording(sx, code, other)


@harness("T02", params=tasks(), budget=(18, 200), reach=["influence"])
def flow(sx, name, source):
    """Two captured runs of a script that differ in one input (symbolic
    values): what differs between them leads to the input"""
    code, spec = FLOWS[name]
    first, second = twin_runs(sx, code, spec, source)
    first.well_formed(sx)
    if source not in first.sources or source not in second.sources:
        return
    one, two = first.sources[source], second.sources[source]
    same_path = first.trace == second.trace
    for (eva1, vals1), (eva2, vals2) in zip(first.outs, second.outs):
        if context(first, eva1) != context(second, eva2):
            break
        change = sx.not_(trial.same(sx, vals1, vals2))
        reach1 = first.reaches(eva1, one)
        reach2 = second.reaches(eva2, two)
        found = (reach1 and reach2) if same_path else (reach1 or reach2)
        sx.check(sx.or_(found, sx.not_(change)),
                 "a reported value that changes depends on the input",
                 known=known_loss(name, first, eva1),
                 values=[vals1, vals2], text=component(first, eva1))
        sx.reach("influence")
    if not same_path:
        return
    for eva1, eva2 in zip(first.evaluations, second.evaluations):
        if eva1 is one:
            continue
        if eva1.repr is None or eva2.repr is None:
            continue
        if "Activation(" in str(eva1.repr):
            continue    # representation of objects of the collection
        if first.reaches(eva1, one) and second.reaches(eva2, two):
            continue
        sx.check(sx.not_(differ(sx, eva1.repr, eva2.repr)),
                 "an evaluation that changes depends on the input",
                 known=known_loss(name, first, eva1),
                 values=[eva1.repr, eva2.repr], text=component(first, eva1))


@harness("T02", params=[(name, {"name": name}) for name in sorted(QUIRK_FLOWS)],
         budget=(15, 30))
def quirk(sx, name):
    """Constructs that are known to lose dependencies"""
    _, code, spec, source = QUIRK_FLOWS[name]
    first, second = twin_runs(sx, code, spec, source)
    for (eva1, vals1), (eva2, vals2) in zip(first.outs, second.outs):
        change = sx.not_(trial.same(sx, vals1, vals2))
        found = first.reaches(eva1, first.sources[source])
        sx.check(sx.or_(found, sx.not_(change)),
                 "a reported value that changes depends on the input",
                 known=[("T02-" + name, True)], values=[vals1, vals2])


def component(record, evaluation):
    if not hasattr(record, "components"):
        record.components = {
            c.id: c for c
            in record.run.metascript.code_components_store.values()}
    found = record.components.get(evaluation.code_component_id)
    return "" if found is None else str(found.name)
