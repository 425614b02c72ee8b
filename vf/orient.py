"""Run causy's orientation rules on a given skeleton + separating sets (or on a partially directed graph)."""
import itertools

from vf import build
from vf.build import nm


def model_with(steps, graph):
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm
    from causy.edge_types import DirectedEdge, UndirectedEdge

    m = graph_model_factory(
        Algorithm(name="orient", pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()]))()
    m.graph = graph
    return m


def skeleton_graph(n, skeleton, sepsets, order=None, bare=False):
    """as the skeleton phase leaves it: all edges created, removed ones recorded in the history
    (bare: the removed ones never were in the graph, only recorded)"""
    from causy.models import TestResult, TestResultAction

    g = build.new_graph(n, order)
    for i, j in itertools.permutations(range(n), 2):
        if not bare or frozenset((i, j)) in skeleton:
            g.add_edge(g.nodes[nm(i)], g.nodes[nm(j)], {})
    for i, j in itertools.combinations(range(n), 2):
        if frozenset((i, j)) in skeleton:
            continue
        u, v = g.nodes[nm(i)], g.nodes[nm(j)]
        if not bare:
            g.remove_edge(u, v)
        z = [g.nodes[nm(k)] for k in sepsets[(i, j)]]
        r = TestResult(u=u, v=v, action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
                       data={"separatedBy": z, "triple": [u, v, z]})
        g.add_edge_history(u, v, r)
        g.add_edge_history(v, u, r)
    return g


def partially_directed_graph(n, arcs, order=None, bare=False):
    """every edge undirected first, then the missing directions removed as the executor would
    (bare: only the edges there are, put into the graph as they are)"""
    from causy.edge_types import DirectedEdge

    g = build.new_graph(n, order)
    arcs = {tuple(a) for a in arcs}
    skel = {frozenset(a) for a in arcs}
    if bare:
        for i, j in sorted(arcs):
            if (j, i) in arcs:
                g.add_edge(g.nodes[nm(i)], g.nodes[nm(j)], {})
            else:
                g.add_directed_edge(g.nodes[nm(i)], g.nodes[nm(j)], {})
        return g
    for i, j in itertools.permutations(range(n), 2):
        g.add_edge(g.nodes[nm(i)], g.nodes[nm(j)], {})
    for i, j in itertools.combinations(range(n), 2):
        if frozenset((i, j)) not in skel:
            g.remove_edge(g.nodes[nm(i)], g.nodes[nm(j)])
    for i, j in itertools.permutations(range(n), 2):
        if (i, j) in arcs and (j, i) not in arcs:
            g.remove_directed_edge(g.nodes[nm(j)], g.nodes[nm(i)])
            g.update_directed_edge(g.nodes[nm(i)], g.nodes[nm(j)], edge_type=DirectedEdge())
    return g


def pc_rules():
    import copy

    from causy.causal_discovery.constraint.algorithms.pc import PC_ORIENTATION_RULES

    return copy.deepcopy(PC_ORIENTATION_RULES)
