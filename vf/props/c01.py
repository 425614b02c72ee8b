from hypothesis import strategies as st

from vf.core import Gen
from vf import graphops

RULE = ("histories of 1-28 graph operations (add/update/remove undirected and directed edges, add "
        "nodes, calls with unknown nodes, self loops, duplicate ids) on 2-5 nodes; every query of the "
        "store and of the view handed to pipeline steps is compared with a reference map after every "
        "operation. Non-trivial: at least 3 accepted operations and edges left at the end.")
ASSUMPTIONS = ["single-threaded use of one graph object",
               "values attached to edges are JSON scalars"]


def unnamed_st():
    return st.fixed_dictionaries({"names": st.lists(st.sampled_from(["a", "b", "", "a"]), min_size=2, max_size=6),
                                  "own": st.lists(st.booleans(), min_size=6, max_size=6),
                                  "edges": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), max_size=6)})


def unnamed(c, t):
    """nodes that get their id from the graph, also with equal names"""
    from causy.graph import GraphManager

    g = GraphManager()
    ns = [g.add_node(k, [float(i), 0.5], **({"id_": f"own{i}"} if own else {})) for i, (k, own) in enumerate(zip(c["names"], c["own"]))]
    n = len(ns)
    t.equal(len({x.id for x in ns}), n, "different ids")
    t.equal(list(g.nodes), [x.id for x in ns], "nodes of the graph")
    want = set()
    for i, j in c["edges"]:
        i, j = i % n, j % n
        if i != j and not {(i, j), (j, i)} & want:
            g.add_edge(ns[i], ns[j], {})
            want |= {(i, j), (j, i)}
    for i, x in enumerate(ns):
        y = g.node_by_id(x.id)
        t.check(y is not None and y.name == c["names"][i] and y.values.tolist() == [float(i), 0.5], f"node {i} found by its id")
        t.check(g.graph.node_by_id(x.id) is not None, f"node {i} found by its id in the view")
        for j in range(n):
            if i != j:
                t.equal(g.undirected_edge_exists(x, ns[j]), (i, j) in want, f"edge {i}, {j}")
    t.raises(ValueError, lambda: g.add_node("again", [1.0, 2.0], id_=ns[0].id), "a second node with the id of another")
    t.nontrivial(len(want) > 2 and len(set(c["names"])) < n)


SUBS = [Gen("unnamed", unnamed_st, unnamed, quick=400, thorough=4000),
        Gen("history", lambda: graphops.ops_strategy(soft=False), graphops.run_history,
            quick=2400, thorough=60000)]
