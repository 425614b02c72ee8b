import json

from hypothesis import strategies as st

from vf.core import Gen
from vf import data, results
from vf.child import actions, edges
from vf.scratch import scratch

RULE = ("(1) a generated result (2-5 nodes with any ids and names, edges of every type with values, nested action "
        "history with every action, separating sets and type changes, variables, hashes, creation time) or (2) the "
        "result of an actual discovery run, written the way causy writes results (model_dump, JSON encoder; the "
        "workspace's save and load functions; the execute command) and read back with deserialize_result: everything "
        "must be as written. Non-trivial: at least one edge and one history step with an action.")
ASSUMPTIONS = ["finite numbers", "edge types known to causy"]


@st.composite
def gen_cases(draw):
    return {"result": draw(results.results()), "way": draw(st.sampled_from(["text", "workspace", "twice"]))}


def trip(r, way, t):
    from causy.serialization import CausyJSONEncoder, deserialize_result

    if way == "workspace":
        from causy.models import AlgorithmReference
        from causy.workspaces.cli import _save_experiment_result, _load_latest_experiment_result
        from causy.workspaces.models import Workspace, Experiment

        w = Workspace(name="w", author="a", pipelines={"p": AlgorithmReference(type="name", reference="PC")},
                      dataloaders={}, experiments={"exp_1": Experiment(pipeline="p", dataloader="d")})
        with scratch():
            _save_experiment_result(w, "exp_1", r)
            return deserialize_result(_load_latest_experiment_result(w, "exp_1"))
    out = deserialize_result(json.loads(json.dumps(r.model_dump(), cls=CausyJSONEncoder, indent=4)))
    if way == "twice":
        out = deserialize_result(json.loads(json.dumps(out.model_dump(), cls=CausyJSONEncoder)))
    return out


def typed(x):
    """so that 1, 1.0 and True differ"""
    return json.dumps(x, sort_keys=True)


def generated(c, t):
    r = results.construct(c["result"])
    want = results.expected(c["result"])
    with t.reading("result"):
        t.equal(typed(results.view(r)), typed(want), "result object")
    back = trip(r, c["way"], t)
    with t.reading("loaded result"):
        got = results.view(back)
    for k in want:
        t.equal(typed(got[k]), typed(want[k]), f"{k} after {c['way']}")
    t.nontrivial(bool(want["edges"]) and any(h[2] or h[4] for h in want["history"]))
    t.label(c["way"])


@st.composite
def run_cases(draw):
    c = draw(data.noisy_cases(2, 5, 15, 80))
    c["algo"] = draw(st.sampled_from(["PC", "PCClassic", "PCStable", "ParallelPC"]))
    c["way"] = draw(st.sampled_from(["text", "workspace", "twice", "command"]))
    c["thr"] = draw(st.sampled_from([0.01, 0.05, 0.3]))
    c["file"] = draw(st.booleans())
    return c


def discovered(c, t):
    from causy.models import Result, AlgorithmReference
    from causy.serialization import deserialize_result

    x = data.dataset(c)
    if c["way"] == "command":
        c["algo"] = "ParallelPC" if c["algo"] == "ParallelPC" else "PC"
        c["thr"] = 0.05
    m = data.discover(c["algo"], x, {"threshold": c["thr"]} if c["way"] != "command" else {})
    names = data.names(c["n"])
    if c["way"] == "command":
        from typer.testing import CliRunner
        from causy.cli import app
        from vf.pool import fake_pools
        from vf.core import reset_global_state

        reset_global_state()
        with scratch(), fake_pools():
            with open("d.json", "w") as f:
                json.dump(data.rows(x, names), f)
            how = ["--algorithm", c["algo"]]
            if c.get("file"):
                with open("my pipe.json", "w") as f:
                    json.dump(data.algorithm(c["algo"]).model_dump(), f)
                how = ["--pipeline", "my pipe.json"]
            r = CliRunner().invoke(app, ["execute", "d.json", *how, "--output-file", "o.json"])
            if r.exception:
                raise r.exception
            back = deserialize_result(json.load(open("o.json")))
            t.equal([str(getattr(back.algorithm.type, "value", back.algorithm.type)), back.algorithm.reference],
                    ["file", "my pipe.json"] if c.get("file") else ["name", c["algo"]], "algorithm reference")
    else:
        r = Result(algorithm=AlgorithmReference(type="name", reference="PC"), action_history=m.graph.graph.action_history,
                   edges=m.graph.retrieve_edges(), nodes=m.graph.nodes, variables={"threshold": c["thr"]})
        back = trip(r, c["way"], t)
    with t.reading("loaded result"):
        t.equal({k: (n.id, n.name) for k, n in back.nodes.items()}, {k: (k, k) for k in names}, "nodes")
        key = lambda e: (e[0], e[1])  # noqa
        random_run = c["way"] == "command" and c["algo"] == "ParallelPC"  # it shuffles its combinations
        if not random_run:
            t.equal(sorted(([e.u.id, e.v.id, e.edge_type.name, dict(e.metadata)] for e in back.edges), key=key),
                    sorted(edges(m), key=key), "edges")

        def plain(o):
            if isinstance(o, dict) and "id" in o and "name" in o:
                return {"id": o["id"], "name": o["name"]}
            if isinstance(o, dict):
                return {k: plain(v) for k, v in o.items()}
            return [plain(v) for v in o] if isinstance(o, list) else o

        def flat(history):
            out = []
            for h in data.flat_history(history):
                for a in h.actions:
                    d = plain(json.loads(json.dumps(a.data or {}, default=lambda o: {"id": o.id, "name": o.name})))
                    out.append([h.name, a.action.value, a.u.id, a.v.id, d])
            return out

        if not random_run:
            t.equal(flat(back.action_history), flat(m.graph.action_history), "action history")
            t.equal([[h.name, h.duration if c["way"] != "command" else 0, len(h.all_proposed_actions)] for h in back.action_history],
                    [[h.name, h.duration if c["way"] != "command" else 0, len(h.all_proposed_actions)] for h in m.graph.action_history], "steps")
    t.nontrivial(bool(back.edges) and any(h.actions for h in back.action_history[1:]))
    t.label(c["way"])


SUBS = [
    Gen("generated", gen_cases, generated, quick=2400, thorough=15000),
    Gen("discovered", run_cases, discovered, quick=640, thorough=4000, timeout=120),
]
