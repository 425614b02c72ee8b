from vf.core import Gen, Enum
from vf import build, ref
from vf.props import c04

RULE = ("the CPDAG of every DAG on 2-4 nodes (enumerated, one per equivalence class) and of random DAGs on "
        "4-6 nodes, and sparse ones on 5-8; every pair with every (6 nodes: a spread of) conditioning sets is compared with "
        "d-separation in the DAGs of the equivalence class, which is enumerated and checked to agree. "
        "Non-trivial: the CPDAG has an undirected edge and a pair that is separated by some sets and "
        "connected given others.")
ASSUMPTIONS = ["the graph holds the CPDAG of some DAG"]


def evaluate(c, t):
    n, dag = c["n"], {tuple(a) for a in c["dag"]}
    cls = ref.equivalence_class(n, dag)
    arcs = ref.union_graph(cls)
    probe = [cls[0], cls[-1], dag]
    g = build.build_case(c, arcs)

    def want(u, v, z):
        ans = {ref.d_separated(n, d, u, v, set(z)) for d in probe}
        assert len(ans) == 1
        return ans.pop()

    c04.check(t, g, n, g.are_nodes_d_separated_cpdag, want)
    und = any((b, a) in arcs for (a, b) in arcs)
    t.label("mixed directed/undirected", und and any((b, a) not in arcs for (a, b) in arcs))
    t.label("undirected triangle", any(
        all((x, y) in arcs and (y, x) in arcs for x, y in ((a, b), (b, d), (a, d)))
        for a in range(n) for b in range(a) for d in range(b)))
    t.is_nontrivial = t.is_nontrivial and und


def all_small(tier):
    seen = set()
    for n in (2, 3, 4):
        for k, d in enumerate(ref.all_dags(n)):
            key = (n, ref.cpdag(n, d))
            if key in seen:
                continue
            seen.add(key)
            yield {"n": n, "dag": sorted(d), "deleted": [], "order": list(range(n)) if k % 2 else list(range(n))[::-1],
                   "seed": k % 4}


SUBS = [
    Gen("sparse_cpdags", lambda: build.with_deleted(build.sparse_dags(5, 8, extra=2), "dag"), evaluate,
        quick=1250, thorough=6000),
    Enum("all_small_cpdags", all_small, evaluate),
    Gen("random_cpdags", lambda: build.with_deleted(build.dags(4, 6), "dag"), evaluate,
        quick=3750, thorough=12000),
]
