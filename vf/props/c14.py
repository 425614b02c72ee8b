import itertools
import json
import time

from hypothesis import strategies as st

from vf.core import Gen, Discard
from vf import data, build
from vf.build import nm
from vf.props import c13
from vf.props.c13 import Interp

RULE = ("a data set (3-5 variables), a threshold and a shipped algorithm; the recorded action history, replayed action "
        "by action by a reference interpreter on the complete undirected graph, must give exactly the edges, edge types "
        "and edge values of the result; a history entry read after its step must be identical after the run; two runs "
        "of the same model definition have separate histories. The same replay for the orientation rules (any selection, "
        "order, synchronous or not, in a loop or not) on a generated skeleton with separating sets and for pipelines of steps with "
        "generated actions. Non-trivial: the run removed an edge and oriented one.")
ASSUMPTIONS = ["graphs start complete and undirected without values"]


@st.composite
def cases(draw):
    c = draw(data.noisy_cases(3, 5, 15, 120))
    c["algo"] = draw(st.sampled_from(["PC", "PCClassic", "PCStable", "ParallelPC"]))
    c["thr"] = draw(st.sampled_from([0.01, 0.05, 0.2]))
    c["sched"] = draw(st.integers(0, 50))
    return c


def snap(history):
    return [json.dumps(h.model_dump(exclude={"duration"}), default=str, sort_keys=True) for h in history]


class Replay(Interp):
    def one(self, r):
        # r = [action, u, v, type, data]
        act, u, v, ty, meta = r[:5]
        ok = super().one([act, u, v, ty, 0, None])
        if ok and act in ("UPDATE_EDGE", "UPDATE_EDGE_DIRECTED"):
            for p in [(u, v)] + ([(v, u)] if act == "UPDATE_EDGE" else []):
                self.g.e[p][0] = meta
        return ok


def check_durations(t, steps, limit, what):
    ds = [h.duration for h in steps]
    t.check(all(isinstance(d, (int, float)) and -1 < d for d in ds) and sum(ds) < limit + 1,
            f"durations {ds} recorded for {what}, which took {limit} s")
    for h in steps:
        if h.steps:
            check_durations(t, h.steps, h.duration, h.name)


def evaluate(c, t):
    from causy.graph_model import graph_model_factory
    from vf.pool import fake_pools

    x = data.dataset(c)
    s = data.Stat(x)
    if any(s.constant) or s.cond() > 1e8:
        raise Discard()
    n = c["n"]
    keys = data.names(n)
    with fake_pools(seed=c["sched"]):
        alg = data.algorithm(c["algo"])
        var = {v.name: v.value for v in alg.variables}
        var["threshold"] = c["thr"]
        cls = graph_model_factory(alg, var)
        model = cls()
        model.create_graph_from_data(data.rows(x, keys))
        model.create_all_possible_edges()
        snaps = []
        began = time.time()
        for _ in model.execute_pipeline_step_with_progress():
            snaps.append(snap(model.graph.action_history))
        elapsed = time.time() - began
        final = snap(model.graph.action_history)
        for old in snaps:
            t.check(final[: len(old)] == old, lambda: "a recorded history entry changed after its step: " + next(
                f"{a[:600]} became {b[:600]}" for a, b in zip(old, final) if a != b))
        with t.reading("durations"):
            check_durations(t, model.graph.action_history, elapsed, "the run")
        # a second run has its own history
        other = cls()
        other.create_graph_from_data(data.rows(x, keys))
        t.check(len(other.graph.action_history) == 0, "a new graph starts with a non-empty action history")
        if c["sched"] % 4 == 0:
            # neither does a second run of the same model
            first = model.graph
            model.create_graph_from_data(data.rows(x, keys))
            t.check(len(model.graph.action_history) == 0, "the second run of a model starts with a non-empty action history")
            model.create_all_possible_edges()
            model.execute_pipeline_steps()
            t.check(snap(first.action_history) == final, "the recorded history changed during another run of the model")
            t.equal(len(model.graph.action_history), len(final), "recorded steps of the second run of a model")

    idx = {k: i for i, k in enumerate(keys)}
    arcs = [[i, j, "UNDIRECTED", {}] for i, j in itertools.permutations(range(n), 2)]
    r = Replay(n, arcs, [], False)
    acts = []
    with t.reading("action history"):
        t.equal([h.name for h in model.graph.action_history], [p.name for p in model.algorithm.pipeline_steps],
                "recorded step names")
        for h in data.flat_history(model.graph.action_history):
            for a in h.actions:
                acts.append(a.action.value)
                r.one([a.action.value, idx[a.u.id], idx[a.v.id], None, a.data])
    with t.reading("graph"):
        got = {(e.u.id, e.v.id): (e.edge_type.name, dict(e.metadata)) for e in model.graph.retrieve_edges()}
    want = {(nm(i), nm(j)): (q[1], q[0]) for (i, j), q in r.g.e.items() if not q[2]}
    t.equal(got, want, f"{c['algo']}: result against the replayed history")
    t.nontrivial("REMOVE_EDGE_UNDIRECTED" in acts and "REMOVE_EDGE_DIRECTED" in acts)
    t.label(c["algo"])
    t.label("direct effects", "UPDATE_EDGE_DIRECTED" in acts)


def replayed(g, arcs, n, t, what):
    """the recorded history applied to the start graph gives the final graph"""
    r = Replay(n, arcs, [], False)
    acts = []
    with t.reading("action history"):
        for h in data.flat_history(g.action_history):
            for a in h.actions:
                acts.append(a.action.value)
                r.one([a.action.value, "abcdefghij".index(a.u.id), "abcdefghij".index(a.v.id),
                       a.edge_type.name if getattr(a, "edge_type", None) else None, a.data])
    with t.reading("graph"):
        got = {(e.u.id, e.v.id): (e.edge_type.name, dict(e.metadata)) for e in g.retrieve_edges()}
    want = {(nm(i), nm(j)): (q[1], q[0]) for (i, j), q in r.g.e.items() if not q[2]}
    t.equal(got, want, f"{what}: result against the replayed history")
    return acts


@st.composite
def orient_cases(draw):
    n = draw(st.integers(4, 7))
    pairs = [list(p) for p in itertools.combinations(range(n), 2)]
    dense = draw(st.sampled_from([1, 2, 3]))
    skel, sep = [], []
    for p in pairs:
        if draw(st.integers(0, 4)) < dense:
            skel.append(p)
        else:
            sep.append([p, draw(st.lists(st.integers(0, n - 1).filter(lambda k: k not in p), max_size=2, unique=True))])
    names = ["ColliderTest", "NonColliderTest", "FurtherOrientTripleTest", "OrientQuadrupleTest",
             "FurtherOrientQuadrupleTest"]
    rules = draw(st.lists(st.tuples(st.sampled_from(names), st.booleans()), min_size=1, max_size=5))
    return {"n": n, "skel": skel, "sep": sep, "rules": [list(r) for r in rules], "loop": draw(st.booleans()),
            "order": draw(st.permutations(range(n)))}


def orientation(c, t):
    from causy.causal_discovery.constraint.orientation_rules import pc
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy.common_pipeline_steps.logic import Loop
    from vf import orient

    n = c["n"]
    g = orient.skeleton_graph(n, {frozenset(p) for p in c["skel"]}, {tuple(p): z for p, z in c["sep"]}, c["order"])
    steps = [getattr(pc, k)(apply_synchronous=s) for k, s in c["rules"]]
    if c["loop"]:
        steps = [Loop(pipeline_steps=steps, exit_condition=ExitOnNoActions())]
    orient.model_with(steps, g).execute_pipeline_steps()
    arcs = [[i, j, "UNDIRECTED", {}] for p in c["skel"] for i, j in (p, p[::-1])]
    acts = replayed(g, arcs, n, t, "orientation rules")
    t.nontrivial(len(acts) > 1)
    for k, s in c["rules"]:
        t.label("synchronous rule", s and len(acts) > 1)


def scripted(c, t):
    from vf.scripted import SCRIPT  # noqa

    c = dict(c, steps=[s for s in c["steps"] if s["mode"] != "together"])
    if not c["steps"]:
        raise Discard()
    c13.Interp(c["n"], json.loads(json.dumps(c["arcs"])), c["pre"], c["post"]).run(c["steps"])  # may discard
    model, g, *_ = c13.execute(c)
    acts = replayed(g, json.loads(json.dumps(c["arcs"])), c["n"], t, "scripted steps")
    t.nontrivial(len(acts) > 1)
    t.label("sync", any(s["mode"] == "sync" for s in c["steps"]))


SUBS = [Gen("orientation", orient_cases, orientation, quick=900, thorough=15000),
        Gen("scripted", c13.cases, scripted, quick=2000, thorough=20000),
        Gen("replay", cases, evaluate, quick=700, thorough=8000, timeout=120),
]
