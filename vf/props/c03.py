import itertools

from hypothesis import strategies as st

from vf.core import Gen
from vf import build, ref
from vf.build import nm

RULE = ("random mixed graphs (directed, undirected, cyclic, disconnected, with soft-deleted edges) on "
        "1-6 nodes (sparse ones with long paths up to 10), random node and edge insertion order, edges that reached their directions through "
        "different histories and carry any recorded type; descendants, path existence, all directed "
        "paths, all undirected paths of every ordered pair are compared with brute-force reachability "
        "and simple-path enumeration. Non-trivial: some pair has a path of length >= 2.")
ASSUMPTIONS = ["an undirected edge leads both ways for directed-path queries (as the edge queries say)",
               "a path has at least one edge (from a node to itself: a cycle); path lists are asked for two different nodes"]


def evaluate(c, t):
    n, arcs = c["n"], {tuple(a) for a in c["arcs"]}
    m = ref.Mixed(n, arcs)
    g = build.build_case(c, arcs, any_type=True)
    for view in (g, g.graph):
        for i in range(n):
            for arg in (nm(i), g.nodes[nm(i)]):
                got = [x.id for x in view.descendants_of_node(arg)]
                t.equal(sorted(got), sorted(nm(k) for k in m.descendants(i)), f"descendants of {nm(i)}")
        for i in range(n):
            cyc = any((x, i) in arcs and ((i, x) in arcs or m.simple_paths(i, x, lambda p, q: (p, q) in arcs)) for x in range(n) if x != i)
            t.equal(view.directed_path_exists(nm(i), g.nodes[nm(i)]), cyc, f"directed_path_exists({nm(i)},{nm(i)})")
        for i, j in itertools.permutations(range(n), 2):
            a, b = (nm(i), nm(j)) if (i + j) % 2 else (g.nodes[nm(i)], g.nodes[nm(j)])
            dp = m.simple_paths(i, j, lambda x, y: (x, y) in arcs)
            t.equal(view.directed_path_exists(a, b), bool(dp), f"directed_path_exists({nm(i)},{nm(j)})")
            up = m.simple_paths(i, j, m.adj)
            got = [[x.id for x in p] for p in view.all_paths_on_underlying_undirected_graph(a, b)]
            t.equal(sorted(got), sorted([nm(x) for x in p] for p in up),
                    f"all undirected paths {nm(i)}..{nm(j)}")
            if view is g.graph:
                got = [[(x.id, y.id) for x, y in p] for p in view.directed_paths(a, b)]
                t.equal(sorted(got), sorted([(nm(x), nm(y)) for x, y in zip(p, p[1:])] for p in dp),
                        f"all directed paths {nm(i)}->{nm(j)}")
            t.nontrivial(any(len(p) > 2 for p in up))
            t.label("directed path of length >= 2", any(len(p) > 2 for p in dp))
    t.label("cyclic", not ref.is_acyclic(n, arcs))
    t.label("soft-deleted edges", bool(c["deleted"]))
    t.label("isolated node", any(not m.neighbours(i) for i in range(n)))


@st.composite
def sparse(draw):
    c = draw(build.sparse_dags(5, 10, extra=2))
    arcs = {tuple(a) for a in c.pop("dag")}
    for a, b in sorted(arcs):
        if draw(st.integers(0, 5)) == 5:
            arcs.add((b, a))
    c["arcs"] = sorted(map(list, arcs))
    return c


SUBS = [Gen("sparse", lambda: build.with_deleted(sparse(), "arcs"), evaluate, quick=1250, thorough=8000),
        Gen("paths", lambda: build.with_deleted(build.mixed_graphs(1, 6), "arcs"), evaluate,
            quick=7500, thorough=40000)]
