import itertools

from hypothesis import strategies as st

from vf.core import Gen, Enum
from vf import build, ref
from vf.build import nm

RULE = ("every DAG on 2-4 nodes (enumerated) and random DAGs on 4-6 nodes and sparse ones with long paths on 5-8 (paths with chains of descendants on up to 9, given some sets), with random insertion order "
        "and soft-deleted extra edges; every pair u,v with every conditioning set (up to 5 nodes) or a "
        "spread of sets (6 nodes), passed as nodes, ids or mixed, is compared with d-separation decided on the "
        "moralised ancestral graph. Non-trivial: the DAG has a pair separated by some sets and "
        "connected given others.")
ASSUMPTIONS = ["the graph holds a DAG whose edges were added as directed edges"]


def check(t, g, n, query, want):
    """all pairs, conditioning sets; want(u,v,Z) is the truth"""
    both = False
    q = 0
    for u, v in itertools.combinations(range(n), 2):
        rest = [k for k in range(n) if k not in (u, v)]
        answers = set()
        for k in range(len(rest) + 1):
            for z in itertools.combinations(rest, k):
                q += 1
                if (n == 6 and q % 3) or (n == 7 and q % 11) or (n == 8 and q % 31):
                    continue
                a, b = (u, v) if q % 2 else (v, u)
                form = q % 4
                args = (nm(a), nm(b)) if form in (0, 3) else (g.nodes[nm(a)], g.nodes[nm(b)])
                if form == 2:
                    cond = [nm(x) for x in z]
                elif form == 3:
                    cond = [nm(x) if x % 2 else g.nodes[nm(x)] for x in z]
                else:
                    cond = [g.nodes[nm(x)] for x in z]
                w = want(u, v, z)
                got = query(*args, cond)
                answers.add(w)
                if bool(got) != w:
                    t.fail(f"d-separation of {nm(a)},{nm(b)} given {[nm(x) for x in z]} "
                           f"(as {'ids' if form == 2 else 'nodes/ids'}): got {got}, expected {w}")
        both = both or len(answers) == 2
    t.nontrivial(both)
    if n >= 3:
        for bad in ([g.nodes[nm(0)]], [nm(0)], [g.nodes[nm(2)], nm(1)], [nm(2), g.nodes[nm(1)]]):
            t.raises(ValueError, lambda: query(g.nodes[nm(0)], nm(1), bad),
                     f"d-separation of a,b given a set containing one of them {bad}")


def evaluate(c, t):
    n, dag = c["n"], {tuple(a) for a in c["dag"]}
    g = build.build_case(c, dag)
    memo = {}

    def want(u, v, z):
        return ref.d_separated(n, dag, u, v, set(z))

    check(t, g, n, g.are_nodes_d_separated_dag, want)
    t.label("has unshielded collider", bool(ref.v_structures(n, dag)))
    t.label("chain of two colliders", len(ref.v_structures(n, dag)) >= 2)


@st.composite
def long_paths(draw):
    """a path of 3-6 nodes with arrows either way, and chains of descendants hanging on some of its nodes"""
    k = draw(st.integers(3, 6))
    arcs = []
    for i in range(k - 1):
        arcs.append([i, i + 1] if draw(st.booleans()) else [i + 1, i])
    n = k
    while n < 9 and draw(st.integers(0, 4)):
        arcs.append([draw(st.sampled_from(list(range(1, n)))) if draw(st.booleans()) else n - 1, n])
        n += 1
    perm = draw(st.permutations(range(n)))
    zs = [[x for x in range(n) if draw(st.integers(0, 3)) == 0] for _ in range(6)]
    return {"n": n, "dag": sorted([perm[a], perm[b]] for a, b in arcs), "sets": zs}


def evaluate_sets(c, t):
    n, dag = c["n"], {tuple(a) for a in c["dag"]}
    g = build.build_case(c, dag)
    seen = set()
    for q, z in enumerate(c["sets"]):
        for u, v in itertools.combinations(sorted(set(range(n)) - set(z)), 2):
            w = ref.d_separated(n, dag, u, v, set(z))
            a, b = (u, v) if (u + v + q) % 2 else (v, u)
            got = g.are_nodes_d_separated_dag(nm(a) if q % 2 else g.nodes[nm(a)], nm(b), [g.nodes[nm(x)] if (x + q) % 2 else nm(x) for x in z])
            seen.add((w, bool(z)))
            if bool(got) != w:
                t.fail(f"d-separation of {nm(a)},{nm(b)} given {[nm(x) for x in z]}: got {got}, expected {w}")
    t.nontrivial({(True, True), (False, True)} <= seen)


def all_small(tier):
    for n in (2, 3, 4):
        for k, d in enumerate(ref.all_dags(n)):
            yield {"n": n, "dag": sorted(d), "deleted": [], "order": list(range(n)) if k % 2 else list(range(n))[::-1],
                   "seed": k % 4}


SUBS = [
    Gen("sparse_dags", lambda: build.with_deleted(build.sparse_dags(5, 8, extra=2), "dag"), evaluate,
        quick=1500, thorough=8000),
    Gen("long_paths", lambda: build.with_deleted(long_paths(), "dag"), evaluate_sets, quick=3000, thorough=20000),
    Enum("all_small_dags", all_small, evaluate),
    Gen("random_dags", lambda: build.with_deleted(build.dags(4, 6), "dag"), evaluate,
        quick=3750, thorough=12000),
]
