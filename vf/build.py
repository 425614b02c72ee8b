"""Build causy graphs from reference descriptions, and strategies for those descriptions."""
import itertools

from hypothesis import strategies as st


def nm(i):
    return "abcdefghij"[i]


def new_graph(n, order=None, values=None, ids=None):
    from causy.graph import GraphManager, Graph
    import causy.causal_discovery.constraint.algorithms  # noqa: installs the edge-type mixins

    g = GraphManager(Graph)
    for i in order if order is not None else range(n):
        k = ids[i] if ids else nm(i)
        g.add_node(k, values[i] if values is not None else [float(i), 1.0, 2.0], id_=k)
    return g


def add_arcs(g, arcs, order_seed=0, meta=None, ids=None, style=0, any_type=False):
    """arcs: ordered pairs; both directions present = undirected edge.  style > 0: edges get their present
    directions through different histories (two-way first, one direction removed; direction by direction);
    any_type: the recorded types need not fit the directions."""
    import random
    from causy.edge_types import DirectedEdge, UndirectedEdge

    rng = random.Random(style)

    arcs = {tuple(a) for a in arcs}
    todo = sorted(arcs)
    random.Random(order_seed).shuffle(todo)
    name = (lambda i: ids[i]) if ids else nm
    done = set()
    for (i, j) in todo:
        if (i, j) in done:
            continue
        u, v = g.nodes[name(i)], g.nodes[name(j)]
        m = dict(meta or {})
        how = rng.randrange(3) if style else 0
        both = (j, i) in arcs
        if both:
            done |= {(i, j), (j, i)}
        right = UndirectedEdge() if both else DirectedEdge()
        ty = rng.choice([DirectedEdge(), UndirectedEdge()]) if any_type and style else right
        if how == 0:
            if both:
                g.add_edge(u, v, m, edge_type=ty)
            else:
                g.add_directed_edge(u, v, m, edge_type=ty)
        elif both:
            g.add_directed_edge(v, u, dict(m), edge_type=ty)
            g.add_directed_edge(u, v, m, edge_type=ty)
        else:
            g.add_edge(u, v, m)
            g.remove_directed_edge(v, u, soft_delete=how == 2)
            g.update_directed_edge(u, v, edge_type=ty)
    return g


def arcs_of(g, t=None):
    """live arcs of a causy graph as index pairs (names from nm)"""
    idx = {nm(i): i for i in range(10)}
    return {(idx[e.u.id], idx[e.v.id]) for e in g.retrieve_edges()}


@st.composite
def dags(draw, min_n=2, max_n=6, density=None):
    n = draw(st.integers(min_n, max_n))
    perm = draw(st.permutations(range(n)))
    mode = draw(st.sampled_from(["any", "sparse", "dense"]))
    arcs = []
    for i, j in itertools.combinations(range(n), 2):
        if mode == "any":
            on = draw(st.booleans())
        elif mode == "sparse":
            on = draw(st.integers(0, 3)) == 3
        else:
            on = draw(st.integers(0, 3)) != 3
        if on:
            arcs.append([perm[i], perm[j]])
    return {"n": n, "dag": sorted(arcs)}


@st.composite
def mixed_graphs(draw, min_n=1, max_n=6):
    n = draw(st.integers(min_n, max_n))
    arcs = []
    for i, j in itertools.combinations(range(n), 2):
        k = draw(st.sampled_from([0, 0, 1, 2, 3]))
        if k in (1, 3):
            arcs.append([i, j])
        if k in (2, 3):
            arcs.append([j, i])
    return {"n": n, "arcs": arcs}


@st.composite
def with_deleted(draw, base, key):
    """adds pairs that once had an edge which is soft-deleted now"""
    d = draw(base)
    n = d["n"]
    have = {frozenset(a) for a in d[key]}
    free = [list(p) for p in itertools.combinations(range(n), 2) if frozenset(p) not in have]
    d["deleted"] = draw(st.lists(st.sampled_from(free), max_size=3, unique_by=tuple)) if free else []
    d["order"] = draw(st.permutations(range(n)))
    d["seed"] = draw(st.integers(0, 3))
    d["style"] = draw(st.sampled_from([0, 0] + list(range(1, 20))))
    return d


@st.composite
def sparse_dags(draw, min_n=4, max_n=8, extra=1):
    """forests with a few extra edges: long chains, long ways behind a collider, sparse enough for brute force"""
    n = draw(st.integers(min_n, max_n))
    perm = draw(st.permutations(range(n)))
    pairs = set()
    for k in range(1, n):
        # mostly hang on the previous node: long chains
        p = draw(st.sampled_from([k - 1, k - 1, k - 1, max(k - 2, 0), draw(st.integers(0, k - 1))]))
        if draw(st.integers(0, 7)) != 7:
            pairs.add((p, k) if draw(st.integers(0, 3)) else (k, p))
    for _ in range(draw(st.integers(0, extra))):
        i, j = sorted(draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2, unique=True)))
        if (j, i) not in pairs and not reach(pairs, j, i):
            pairs.add((i, j))
    return {"n": n, "dag": sorted([perm[a], perm[b]] for a, b in pairs)}


def reach(pairs, s, t):
    seen, todo = set(), [s]
    while todo:
        x = todo.pop()
        if x == t:
            return True
        if x not in seen:
            seen.add(x)
            todo += [b for a, b in pairs if a == x]
    return False


def build_case(d, arcs, any_type=False):
    g = new_graph(d["n"], d["order"])
    for k, (i, j) in enumerate(d["deleted"]):
        u, v = g.nodes[nm(i)], g.nodes[nm(j)]
        if k % 2:
            g.add_edge(u, v, {})
            g.remove_edge(u, v, soft_delete=True)
        else:
            g.add_directed_edge(u, v, {})
            g.remove_directed_edge(u, v, soft_delete=True)
    add_arcs(g, arcs, d["seed"], style=d.get("style", 0), any_type=any_type)
    return g
