"""Generated experiment results: a JSON description and its construction through causy's classes."""
from hypothesis import strategies as st

ACTIONS = ["UPDATE_EDGE", "UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED",
           "REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED", "RESTORE_EDGE", "RESTORE_EDGE_DIRECTED", "DO_NOTHING"]
TYPES = ["Directed", "Undirected", "BiDirected"] * 2 + ["Directed*", "Undirected*"]  # *: shown in its own way
NODE_IDS = ["x", "y", "z", "Ä ö", "0", "a-b", "9f1b9a52-6d0f-4d3e-8e6a-0b7a8c9d0e1f", "D-t0"]
ODD_IDS = ["9F1B9A52-6D0F-4D3E-8E6A-0B7A8C9D0E1F", "9f1b9a526d0f4d3e8e6a0b7a8c9d0e1f", "{9f1b9a52-6d0f-4d3e-8e6a-0b7a8c9d0e1f}", "", " x", "null", "1.0", "a\nb", "\u2028", "id"]
floats = st.floats(allow_nan=False, allow_infinity=False, width=64)
_base = st.one_of(st.booleans(), st.integers(-3, 10**12), st.sampled_from(["", "a", "1e5", "true"]), floats)
VALUES = st.one_of(_base, st.lists(_base, max_size=2), st.dictionaries(st.sampled_from(["p", "q"]), _base, max_size=2))


@st.composite
def results(draw, min_nodes=2, max_nodes=5):
    some = NODE_IDS if draw(st.integers(0, 2)) else NODE_IDS[:3] + ODD_IDS
    ids = draw(st.permutations(some))[: draw(st.integers(min_nodes, max_nodes))]
    if draw(st.integers(0, 4)) == 0:
        odd = draw(st.text(st.characters(exclude_categories=["Cs"]), max_size=4))
        ids = ids if odd in ids else [odd] + ids[1:]
    node = st.sampled_from(ids)
    pair = st.tuples(node, node).filter(lambda p: p[0] != p[1]).map(list)
    meta = st.dictionaries(st.sampled_from(["correlation", "direct_effect", "note"]), st.one_of(floats, floats, VALUES), max_size=2)
    edges = [[u, v, draw(st.sampled_from(TYPES)), draw(meta)]
             for u, v in draw(st.lists(pair, max_size=6, unique_by=tuple))]

    def action():
        return st.tuples(st.sampled_from(ACTIONS), pair, st.one_of(st.none(), meta, st.lists(node, max_size=2)),
                         st.sampled_from(TYPES)).map(list)

    acts = st.lists(action(), max_size=3)
    leaf = st.fixed_dictionaries({"name": st.sampled_from(["step.A", "step.B"]), "duration": st.one_of(st.none(), st.floats(0, 10)),
                                  "actions": acts, "proposed": acts, "steps": st.just([])})
    node_ = st.fixed_dictionaries({"name": st.just("Loop"), "duration": st.just(1.5), "actions": st.just([]),
                                   "proposed": st.just([]), "steps": st.lists(leaf, max_size=2)})
    return {"ids": ids, "names": [draw(st.sampled_from([i, i, i + " name", "same"])) for i in ids], "edges": edges,
            "history": draw(st.lists(st.one_of(leaf, leaf, node_), max_size=3)),
            "ref": draw(st.sampled_from([["name", "PC"], ["file", "a.yml"], ["python_module", "m.PC"]])),
            "variables": draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(["threshold", "n", "b", "s"]),
                                                                   st.one_of(floats, st.integers(-5, 5), st.booleans(), st.sampled_from(["a", "1e5"])), max_size=3))),
            "hashes": draw(st.lists(st.sampled_from([None, "abc", "def_123"]), min_size=3, max_size=3)),
            "created": draw(st.sampled_from(["2024-03-01T12:00:00", "2030-12-31T23:59:59.123456", "2001-01-01T00:00:00.5"]))}


def construct(d):
    import datetime

    import torch

    from causy import edge_types as E
    from causy.graph import Node, Edge
    from causy.models import Result, AlgorithmReference, ActionHistoryStep, TestResult, TestResultAction

    def kind_of(ty):
        cls = getattr(E, ty.rstrip("*") + "Edge")
        return cls(STR_REPRESENTATION="=" + cls().STR_REPRESENTATION) if ty.endswith("*") else cls()

    nodes = {i: Node(id=i, name=n, values=torch.tensor([1.0, 2.0], dtype=torch.float64)) for i, n in zip(d["ids"], d["names"])}

    def act(a):
        kind, (u, v), dat, ty = a
        if isinstance(dat, list):
            dat = {"separatedBy": [nodes[k] for k in dat]}
        return TestResult(u=nodes[u], v=nodes[v], action=TestResultAction(kind), data=dat,
                          edge_type=kind_of(ty) if "TYPE" in kind else None)

    def step(h):
        return ActionHistoryStep(name=h["name"], duration=h["duration"], actions=[act(a) for a in h["actions"]],
                                 all_proposed_actions=[act(a) for a in h["proposed"]], steps=[step(s) for s in h["steps"]])

    return Result(
        algorithm=AlgorithmReference(type=d["ref"][0], reference=d["ref"][1]),
        created_at=datetime.datetime.fromisoformat(d["created"]), nodes=nodes,
        edges=[Edge(u=nodes[u], v=nodes[v], edge_type=kind_of(ty), metadata=m) for u, v, ty, m in d["edges"]],
        action_history=[step(h) for h in d["history"]], variables=d["variables"],
        data_loader_hash=d["hashes"][0], algorithm_hash=d["hashes"][1], variables_hash=d["hashes"][2])


def view(r):
    """what a result object says, in plain values"""
    def nid(k):
        return k["id"] if isinstance(k, dict) else k.id

    def dat(x):
        if x is None:
            return None
        return {k: [nid(n) for n in v] if k == "separatedBy" else v for k, v in x.items()}

    def act(a):
        return [a.action.value, a.u.id, a.u.name, a.v.id, a.v.name, dat(a.data), None if a.edge_type is None else a.edge_type.name]

    def step(h):
        return [h.name, h.duration, [act(a) for a in h.actions], [act(a) for a in h.all_proposed_actions],
                [step(s) for s in h.steps]]

    return {"algorithm": [r.algorithm.type.value, r.algorithm.reference], "created_at": r.created_at.isoformat(),
            "nodes": {k: [n.id, n.name] for k, n in r.nodes.items()},
            "edges": [[e.u.id, e.u.name, e.v.id, e.v.name, e.edge_type.name, e.edge_type.IS_DIRECTED, e.edge_type.STR_REPRESENTATION,
                       dict(e.metadata)] for e in r.edges],
            "history": [step(h) for h in r.action_history], "variables": r.variables,
            "hashes": [r.data_loader_hash, r.algorithm_hash, r.variables_hash]}


def expected(d):
    """the same, from the description alone"""
    names = dict(zip(d["ids"], d["names"]))
    spec = {"Directed": ["DIRECTED", True, "-->"], "Undirected": ["UNDIRECTED", False, "---"], "BiDirected": ["BIDIRECTED", False, "<->"]}
    spec.update({k + "*": [a, b, "=" + s] for k, (a, b, s) in list(spec.items())})

    def act(a):
        kind, (u, v), x, ty = a
        if isinstance(x, list):
            x = {"separatedBy": x}
        return [kind, u, names[u], v, names[v], x, spec[ty][0] if "TYPE" in kind else None]

    def step(h):
        return [h["name"], h["duration"], [act(a) for a in h["actions"]], [act(a) for a in h["proposed"]], [step(s) for s in h["steps"]]]

    import datetime

    return {"algorithm": d["ref"], "created_at": datetime.datetime.fromisoformat(d["created"]).isoformat(), "nodes": {i: [i, names[i]] for i in d["ids"]},
            "edges": [[u, names[u], v, names[v], *spec[ty], m] for u, v, ty, m in d["edges"]],
            "history": [step(h) for h in d["history"]], "variables": d["variables"], "hashes": d["hashes"]}
