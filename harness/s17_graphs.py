"""S17: activation graphs account for every activation exactly once"""
from symex.api import harness
from symex.hlib import Record, fake, project

from noworkflow.now.persistence.models import Activation
from noworkflow.now.models.graphs.trial_graph import TrialGraph
from noworkflow.now.persistence.models import graph_cache


class FakeTrial(object):

    def __init__(self, trial_id, activations, finished=True):
        self.id = trial_id
        self.activations = activations
        self.finished = finished


def forest(sx, amount, trial_id="t1", prefix="", lines=2, parents=None, names="ab"):
    """Preorder tree of activations with symbolic names, lines and times"""
    acts, parent_of = [], []
    ids = [2, 3, 7, 12, 13, 21, 22, 30, 41]
    for index in range(amount):
        if index == 0:
            parent = None
        elif parents is not None:
            parent = parents[index]
        else:
            chain = []
            node = index - 1
            while node is not None:
                chain.append(node)
                node = parent_of[node]
            parent = sx.choose("%sparent%d" % (prefix, index), chain)
        parent_of.append(parent)
        name = sx.str("%sname%d" % (prefix, index), names, 1, 1)
        line = 1
        if lines > 1:
            line = sx.int("%sline%d" % (prefix, index), 1, lines)
        start, finish = index, index + 3.5
        if amount < 6:
            start = sx.real("%sstart%d" % (prefix, index), 0, 50)
            finish = start + sx.real("%sdur%d" % (prefix, index), 0, 50)
        caller = None if parent is None else ids[parent]
        acts.append(fake(
            Activation, id=ids[index], trial_id=trial_id, name=name,
            start_checkpoint=start, code_block_id=None,
            this_evaluation=Record(
                activation_id=caller, checkpoint=finish, id=ids[index],
                code_component=Record(first_char_line=line, name=name)),
        ))
    return acts, parent_of


def same_name_line(sx, first, second):
    return sx.and_(
        sx.eq(first.name, second.name),
        sx.eq(first.this_evaluation.code_component.first_char_line,
              second.this_evaluation.code_component.first_char_line))


def struct_eq(sx, acts, kids, i, j, memo):
    """Do the calls below i and j have the same structure?"""
    if i == j:
        return True
    key = (min(i, j), max(i, j))
    if key not in memo:
        if len(kids[i]) != len(kids[j]):
            memo[key] = False
        else:
            memo[key] = sx.and_(same_name_line(sx, acts[i], acts[j]), *[
                struct_eq(sx, acts, kids, a, b, memo)
                for a, b in zip(kids[i], kids[j])])
    return memo[key]


def expected_same(sx, view, acts, parent_of, kids, i, j):
    """When should i and j be represented by the same node?"""
    if i == j:
        return True
    if view in ("tree", "no_match"):
        return False
    if parent_of[i] is None or parent_of[j] is None:
        return False
    if view == "namespace_match":
        cond = same_name_line(sx, acts[i], acts[j])
    else:
        cond = struct_eq(sx, acts, kids, i, j, {})
    if cond is False:
        return False
    return sx.and_(cond, expected_same(
        sx, view, acts, parent_of, kids, parent_of[i], parent_of[j]))


def micro(act):
    return (act.this_evaluation.checkpoint - act.start_checkpoint) * 1000000


def verify(sx, view, acts, parent_of, result, trial_id="t1"):
    finished, graph, nodes = result
    amount = len(acts)
    kids = {i: [j for j in range(amount) if parent_of[j] == i]
            for i in range(amount)}
    by_id = {act.id: index for index, act in enumerate(acts)}
    # partition of activations
    node_of = {}
    total = 0
    for position, node in enumerate(nodes):
        sx.check(node.index == position, "node index")
        ids = list(node.activations[trial_id])
        total += len(ids)
        for act_id in ids:
            sx.check(act_id in by_id and by_id[act_id] not in node_of,
                     "activation in exactly one node")
            node_of[by_id[act_id]] = node
        sx.check(list(node.trial_ids) == [trial_id], "node trials")
        sx.check(sx.eq(node.duration[trial_id], sx.sum(
            [micro(acts[by_id[act_id]]) for act_id in ids])),
            "node duration")
        sx.check(sx.and_(*[sx.eq(node.name, acts[by_id[a]].name)
                           for a in ids]), "node name")
    sx.check(total == amount and len(node_of) == amount,
             "all activations are represented")
    sx.check(graph["root"] is node_of[0], "root")
    for i in range(amount):
        for j in range(i):
            same = node_of[i] is node_of[j]
            expect = expected_same(sx, view, acts, parent_of, kids, i, j)
            sx.check(sx.eq(expect, same), "merged exactly when equivalent",
                     pair=(i, j))
    # nesting
    for i in range(1, amount):
        parent = node_of[parent_of[i]]
        node = node_of[i]
        sx.check(node.parent_index == parent.index, "parent index")
        sx.check(any(child is node for child in parent.children), "child")
    for node in nodes:
        seen = []
        for child in node.children:
            sx.check(child.parent_index == node.index, "children's parent")
            sx.check(not any(child is other for other in seen), "child twice")
            seen.append(child)
        order = [min(by_id[a] for a in child.activations[trial_id])
                 for child in node.children]
        sx.check(order == sorted(order), "children follow call order")
        sx.check([c.children_index for c in node.children]
                 == list(range(len(node.children))), "children index")
    # edges
    got = {}
    for edge in graph["edges"]:
        key = (edge["source"], edge["target"], edge["type"])
        sx.check(key not in got, "edge repeated")
        got[key] = dict(edge["count"])
    if view == "tree":
        wanted = {}
        for node in nodes:
            for index, child in enumerate(node.children):
                wanted[(node.index, child.index, "call")] = {trial_id: index}
        sx.check(got == wanted, "tree edges", got=got, wanted=wanted)
    else:
        root = node_of[0].index
        sequence = {}
        calls, returns = set(), set()
        for i in range(amount):
            for first, second in zip(kids[i], kids[i][1:]):
                key = (node_of[first].index, node_of[second].index)
                sequence[key] = sequence.get(key, 0) + 1
            if kids[i]:
                calls.add((node_of[i].index, node_of[kids[i][0]].index))
                returns.add((node_of[kids[i][-1]].index, node_of[i].index))
        got_seq = {k[:2]: v for k, v in got.items() if k[2] == "sequence"}
        sx.check(got_seq == {k: {trial_id: v} for k, v in sequence.items()},
                 "sequence edges count consecutive calls", got=got_seq,
                 wanted=sequence)
        got_calls = set(k[:2] for k in got if k[2] == "call")
        got_returns = set(k[:2] for k in got if k[2] == "return")
        sx.check(got_calls <= calls, "call edges connect caller to callee")
        sx.check(got_returns <= returns, "return edges go back to caller")
        sx.check(all(v == {trial_id: 1} for k, v in got.items()
                     if k[2] in ("call", "return")), "one call per edge")
        sx.check(set(a for a, _ in got_calls) == set(a for a, _ in calls),
                 "every caller has a call edge")
        sx.check(set(b for _, b in got_returns) == set(b for _, b in returns),
                 "every caller gets a return edge")
        initial = [k for k in got if k[2] == "initial"]
        sx.check(initial == [(root, root, "initial")]
                 and got[initial[0]] == {trial_id: 1}, "initial edge")
        sx.check(set(k[2] for k in got) <= {"initial", "call", "return",
                                            "sequence"}, "edge types")
        if view == "no_match":
            sx.check(got_calls == calls and got_returns == returns,
                     "no match: all calls and returns")
    lows = graph["min_duration"][trial_id]
    highs = graph["max_duration"][trial_id]
    durations = [node.duration[trial_id] for node in nodes]
    sx.check(sx.and_(*[lows <= d for d in durations]), "min duration")
    sx.check(sx.or_(*[sx.eq(lows, d) for d in durations]), "min reached")
    sx.check(sx.and_(*[highs >= d for d in durations]), "max duration")
    sx.check(sx.or_(*[sx.eq(highs, d) for d in durations]), "max reached")
    sx.check(finished is True, "finished")


VIEWS = ["tree", "no_match", "namespace_match", "exact_match"]


def shapes(amount):
    """Parent vectors of all preorder trees with this number of nodes"""
    result = [[None]]
    for index in range(1, amount):
        new = []
        for shape in result:
            node = index - 1
            while node is not None:
                new.append(shape + [node])
                node = shape[node]
        result = new
    return result


def shape_params():
    params = []
    for view in VIEWS:
        params.append((view + "-4", {"view": view, "amount": 4}))
    for view in VIEWS[2:]:
        for index, shape in enumerate(shapes(5)):
            params.append(("%s-5-%s" % (view, "".join(map(str, shape[1:]))),
                           {"view": view, "amount": 5, "parents": shape},
                           {"budget": (60, 120)}))
    for name, shape in (("leaf-pair", [None, 0, 1, 2, 1, 0, 5]),
                        ("deep-pair", [None, 0, 1, 2, 0, 4, 5]),
                        ("wide-pair", [None, 0, 1, 1, 0, 4, 4]),
                        ("uneven-pair", [None, 0, 1, 0, 3, 3]),
                        ("shrinking-pair", [None, 0, 1, 1, 0, 4]),
                        ("triple", [None, 0, 1, 0, 3, 0, 5]),
                        ("growing-pair", [None, 0, 1, 1, 0, 4, 4, 4])):
        for view in VIEWS[2:]:
            params.append(("%s-%d-%s" % (view, len(shape), name),
                           {"view": view, "amount": len(shape),
                            "parents": shape, "lines": 1},
                           {"budget": (60, 200)}))
    for view in VIEWS[2:]:
        for index, shape in enumerate(shapes(6)):
            params.append(("%s-6-%s" % (view, "".join(map(str, shape[1:]))),
                           {"view": view, "amount": 6, "parents": shape},
                           {"tiers": ("thorough",), "budget": (40, 240)}))
    return params


@harness("S17", params=shape_params(), budget=(60, 400), reach=["graph"])
def summarization(sx, view, amount, parents=None, lines=2):
    """every forest of 4 activations (5 for the merging views, 6 in thorough),
    names over {a b}, lines 1..2, start times and durations 0..50 s"""
    sx.repr_mode = "digits"
    project("sequential_plain")
    acts, parent_of = forest(sx, amount, parents=parents, lines=lines)
    trial = FakeTrial("t1", acts)
    graph = TrialGraph(trial)
    graph.use_cache = False
    result = getattr(graph, view)()
    sx.reach("graph")
    verify(sx, view, acts, parent_of, result)
    sx.observe("edges", sorted(
        (e["source"], e["target"], e["type"]) for e in result[1]["edges"]))
    sx.observe("durations", [n.duration["t1"] for n in result[2]])


@harness("S17", params=[("2", {"views": VIEWS, "requests": 2}),
                        ("3", {"views": VIEWS[2:], "requests": 3})],
         budget=(60, 200), reach=["cached"])
def cached_views(sx, views, requests):
    """2 trials, 2 (3) requests of symbolic choice of trial and view (4, 2)
    with the cache on, trials finishing between requests: each answer is
    about the requested trial as it is now"""
    from noworkflow.now.persistence import relational
    sx.repr_mode = "digits"
    project("sequential_plain")
    session = relational.session
    session.query(graph_cache.GraphCache.m).delete()
    session.commit()
    trials = []
    for tid, size in (("t1", 2), ("t2", 3)):
        acts, parent_of = forest(sx, size, tid, tid, lines=1, names="a",
                                 parents=[None, 0, 0][:size])
        trials.append((FakeTrial(tid, acts, False), acts, parent_of))
    for step in range(requests):
        index = sx.choose("trial%d" % step, [0, 1])
        trial, acts, parent_of = trials[index]
        view = sx.choose("view%d" % step, views)
        if sx.bool("finish%d" % step):
            trial.finished = True
        visible = acts if trial.finished else acts[:-1]
        trial.activations = visible
        result = getattr(TrialGraph(trial), view)()
        ids = sorted(a for node in result[2]
                     for a in node.activations[trial.id])
        sx.check(ids == sorted(a.id for a in visible),
                 "activations of the requested trial, now",
                 view=view, step=step)
        sx.check(bool(result[0]) == trial.finished, "finished flag")
        edges = {e["type"] for e in result[1]["edges"]}
        sx.check((view == "tree") == ("initial" not in edges),
                 "the requested view")
        sx.reach("cached")
