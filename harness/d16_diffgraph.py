"""D16: the merged diff graph contains both trials without mixing them up"""
from symex.api import harness
from symex.hlib import Record, fake, project

from noworkflow.now.persistence.models import Activation
from noworkflow.now.models.diff import Diff
from noworkflow.now.models.graphs.diff_graph import DiffGraph
from noworkflow.now.models.graphs.trial_graph import TrialGraph

VIEWS = ["tree", "no_match", "namespace_match", "exact_match"]


class FakeTrial(object):

    def __init__(self, trial_id, activations):
        self.id = trial_id
        self.activations = activations
        self.finished = True

    @property
    def graph(self):
        graph = TrialGraph(self)
        graph.use_cache = False
        return graph


def forest(sx, prefix, trial_id, parents, names, first_id):
    """Preorder tree of activations with symbolic names and durations"""
    acts = []
    for index, parent in enumerate(parents):
        name = sx.str("%sname%d" % (prefix, index), names, 1, 1)
        duration = sx.real("%sdur%d" % (prefix, index), 0, 50)
        start = float(index)
        acts.append(fake(
            Activation, id=first_id + index, trial_id=trial_id, name=name,
            start_checkpoint=start, code_block_id=None,
            this_evaluation=Record(
                activation_id=None if parent is None else first_id + parent,
                checkpoint=start + duration, id=first_id + index,
                code_component=Record(first_char_line=1, name=name))))
    return acts


def side(sx, label, key, trial_id, other_id, original, result):
    """Compare what the diff says about one trial with its own graph"""
    _, graph, nodes = original
    _, dgraph, dnodes = result
    at = {}
    for node in dnodes:
        position = getattr(node, key)
        if position is not None:
            sx.check(position not in at, "node of one side appears once")
            at[position] = node
    sx.check(set(at) == set(n.index for n in nodes),
             "every node of %s trial is there" % label)
    back = {}
    for node in nodes:
        merged = at[node.index]
        back[merged.index] = node.index
        both = merged.original1 is not None and merged.original2 is not None
        sx.check((trial_id in merged.trial_ids)
                 and (both == (other_id in merged.trial_ids))
                 and len(merged.trial_ids) == (2 if both else 1),
                 "node is marked with its trials", ids=merged.trial_ids)
        sx.check(list(merged.activations[trial_id])
                 == list(node.activations[trial_id]),
                 "activations of each side")
        sx.check(set(merged.activations) == set(merged.trial_ids),
                 "activations of marked trials only")
        sx.check(sx.eq(merged.duration[trial_id], node.duration[trial_id]),
                 "duration of each side")
        sx.check(set(merged.duration) == set(merged.trial_ids),
                 "durations of marked trials only")
        sx.check(sx.eq(merged.tooltip[trial_id], node.tooltip[trial_id]),
                 "tooltip of each side")
        if not both:
            sx.check(sx.eq(merged.name, node.name), "name of unmatched node")
    wanted = {}
    for edge in graph["edges"]:
        wanted[(edge["source"], edge["target"], edge["type"])] = dict(
            edge["count"])[trial_id]
    got = {}
    for edge in dgraph["edges"]:
        if trial_id in edge["count"]:
            triple = (back.get(edge["source"]), back.get(edge["target"]),
                      edge["type"])
            sx.check(None not in triple[:2], "edge connects nodes of its side")
            sx.check(triple not in got, "edge of one side appears once")
            got[triple] = edge["count"][trial_id]
    sx.check(got == wanted, "edges and counts of %s trial" % label,
             got=got, wanted=wanted)
    for bound in ("min_duration", "max_duration"):
        sx.check(sx.eq(dgraph[bound][trial_id], graph[bound][trial_id]),
                 bound)
    return at


def verify(sx, graph1, graph2, result, id1="t1", id2="t2"):
    finished, graph, nodes = result
    at1 = side(sx, "first", "original1", id1, id2, graph1, result)
    at2 = side(sx, "second", "original2", id2, id1, graph2, result)
    invented = [n for n in nodes
                if n.original1 is None and n.original2 is None]
    sx.check(len(invented) <= 1 and all(n is graph["root"] for n in invented),
             "no other nodes")
    sx.check(len(set(n.index for n in nodes)) == len(nodes), "unique indexes")
    root1, root2 = at1[graph1[1]["root"].index], at2[graph2[1]["root"].index]
    sx.check(bool(invented) or (graph["root"] is root1
                                and graph["root"] is root2), "root")
    for node in nodes:
        if node.original1 is not None and node.original2 is not None:
            first = [n for n in graph1[2] if n.index == node.original1][0]
            second = [n for n in graph2[2] if n.index == node.original2][0]
            if sx.eq(first.name, second.name):
                sx.check(sx.eq(node.name, first.name), "name of both sides")
            else:
                sx.check(sx.eq(node.name, first.name + "|" + second.name),
                         "both names are shown")
    # every node hangs from exactly one place
    parents = {}
    for node in nodes:
        for position, child in enumerate(node.children):
            sx.check(any(child is n for n in nodes), "child is a node")
            sx.check(child.index not in parents, "child of a single node")
            parents[child.index] = node.index
            sx.check(child.parent_index == node.index, "parent index")
            sx.check(child.children_index == position, "children index")
    sx.check(set(parents) == set(n.index for n in nodes
                                 if n is not graph["root"]), "one tree")
    # edges belong to someone
    for edge in graph["edges"]:
        sx.check(set(edge["count"]) <= {id1, id2} and len(edge["count"]),
                 "edge of some side")
    sx.check(graph["colors"] == {id1: 1, id2: 2}, "colors")
    sx.check(graph["trial1"] == id1 and graph["trial2"] == id2, "trials")
    sx.check(finished is True, "finished")


def shapes(amount):
    result = [[None]]
    for index in range(1, amount):
        new = []
        for shape in result:
            node = index - 1
            while node is not None:
                new.append(shape + [node])
                node = shape[node]
        result = new
    return result


def text(shape):
    return "".join(map(str, shape[1:])) or "-"


def params():
    result = []
    for first in shapes(3):
        for second in shapes(3):
            result.append((text(first) + "/" + text(second),
                           {"first": first, "second": second}))
    for first in shapes(4):
        for second in shapes(2) + shapes(3):
            result.append((text(first) + "/" + text(second),
                           {"first": first, "second": second},
                           {"tiers": ("quick", "thorough")
                            if len(second) == 2 else ("thorough",)}))
            result.append((text(second) + "/" + text(first),
                           {"first": second, "second": first},
                           {"tiers": ("thorough",)}))
    result.append(("-/-", {"first": [None], "second": [None]}))
    return result


@harness("D16", params=params(), budget=(40, 200), reach=["diff"])
def merged(sx, first, second):
    """pairs of activation trees of up to 3 and 3 (4 and 2; 4 and 3 in
    thorough) nodes, names over {a b}, durations 0..50 s, each view"""
    sx.repr_mode = "digits"
    sx.stdout = []
    project("sequential_plain")
    view = sx.choose("view", VIEWS)
    trials = [FakeTrial("t1", forest(sx, "x", "t1", first, "ab", 2)),
              FakeTrial("t2", forest(sx, "y", "t2", second, "ab", 2))]
    graph1 = getattr(trials[0].graph, view)()
    graph2 = getattr(trials[1].graph, view)()
    diff = fake(Diff, trial1=trials[0], trial2=trials[1])
    graph = DiffGraph(diff)
    result = getattr(graph, view)()
    sx.reach("diff")
    verify(sx, graph1, graph2, result)
    sx.observe("edges", sorted(
        (e["source"], e["target"], e["type"]) for e in result[1]["edges"]))
