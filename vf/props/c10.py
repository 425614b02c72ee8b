import itertools
import random

from hypothesis import strategies as st

from vf.core import Gen, Enum
from vf import build, ref, orient
from vf.props.c09 import check_types

RULE = ("(1) a DAG (all on 2-4 nodes, random on 4-6, sparse on 6-9, chains behind a collider on 5-10) given as its skeleton plus, for every missing edge, a randomly "
        "chosen valid separating set: the orientation phase with either collider strategy must produce the CPDAG; "
        "(2) a CPDAG with extra directed edges as background knowledge: the rule loop must produce the maximally "
        "oriented graph; (3) any selection of rules applied once must orient only edges whose direction is the same "
        "in every DAG of the class. All against enumeration of the equivalence class. Non-trivial: a rule beyond the "
        "collider rule orients an edge.")
ASSUMPTIONS = ["separating sets are those of a DAG, background knowledge is consistent with the class"]


def subsets(s):
    s = sorted(s)
    return [z for k in range(len(s) + 1) for z in itertools.combinations(s, k)]


@st.composite
def cases(draw):
    c = draw(build.dags(4, 6))
    c["order"] = draw(st.permutations(range(c["n"])))
    c["seed"] = draw(st.integers(0, 10**6))
    c["strategy"] = draw(st.sampled_from([None, "KEEP_FIRST", "KEEP_LAST"]))
    return c


def small(tier):
    k = 0
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for d in ref.all_dags(n):
            k += 1
            perm = list(range(n))
            random.Random(k).shuffle(perm)
            yield {"n": n, "dag": sorted(d), "order": perm, "seed": k, "strategy": [None, "KEEP_FIRST", "KEEP_LAST"][k % 3]}


def rules(strategy):
    from causy.causal_discovery.constraint.orientation_rules.pc import (
        ColliderTest, ColliderTestConflictResolutionStrategies as S)

    r = orient.pc_rules()
    if strategy:
        r[0] = ColliderTest(conflict_resolution_strategy=S[strategy])
    return r


def separating_set(n, dag, i, j, rng):
    rest = set(range(n)) - {i, j}
    if n <= 6:
        return rng.choice([z for z in subsets(rest) if ref.d_separated(n, dag, i, j, set(z))])
    # large graphs: one of some random sets, or the parents of the later node
    for _ in range(rng.randrange(12)):
        z = tuple(sorted(rng.sample(sorted(rest), rng.randrange(min(4, len(rest))))))
        if ref.d_separated(n, dag, i, j, set(z)):
            return z
    order = ref.topological(n, dag)
    late = max(i, j, key=order.index)
    return tuple(sorted(a for a, b in dag if b == late))


def chains(tier):
    """a collider (or an arrow, for the background cases) and a long chain behind it"""
    k = 0
    for n in range(5, 11):
        for rep in range(6 if tier == "quick" else 40):
            k += 1
            ids = list(range(n))
            rng = random.Random(k)
            rng.shuffle(ids)
            dag = [[ids[0], ids[2]], [ids[1], ids[2]]] + [[ids[i], ids[i + 1]] for i in range(2, n - 1)]
            order = [ids[::-1], ids, rng.sample(ids, n)][min(rep, 2)]
            yield {"n": n, "dag": sorted(dag), "order": order, "seed": k, "strategy": [None, "KEEP_FIRST", "KEEP_LAST"][k % 3]}


@st.composite
def sparse_cases(draw):
    c = draw(build.sparse_dags(6, 9, extra=2))
    c["order"] = draw(st.permutations(range(c["n"])))
    c["seed"] = draw(st.integers(0, 10**6))
    c["strategy"] = draw(st.sampled_from([None, "KEEP_FIRST", "KEEP_LAST"]))
    return c


def from_skeleton(c, t):
    n, dag = c["n"], {tuple(a) for a in c["dag"]}
    rng = random.Random(c["seed"])
    skel = {frozenset(a) for a in dag}
    sep = {}
    for i, j in itertools.combinations(range(n), 2):
        if frozenset((i, j)) not in skel:
            sep[(i, j)] = separating_set(n, dag, i, j, rng)
    g = orient.skeleton_graph(n, skel, sep, c["order"], c["seed"] % 4 == 0)
    orient.model_with(rules(c["strategy"]), g).execute_pipeline_steps()
    want = set(ref.cpdag(n, dag))
    with t.reading("graph"):
        got = build.arcs_of(g)
    t.check(got == want, lambda: f"orienting the skeleton of {sorted(dag)} with separating sets {sep}: got {sorted(got)}, CPDAG is {sorted(want)}")
    check_types(t, g)
    one_way = {a for a in want if a[::-1] not in want}
    coll = {(p, z) for (q, z, r) in ref.v_structures(n, dag) for p in (q, r)}
    t.nontrivial(bool(one_way - coll))
    t.label("collider", bool(coll))
    t.label("everything undirected", bool(want) and not one_way)


def background_of(c):
    n, dag = c["n"], {tuple(a) for a in c["dag"]}
    rng = random.Random(c["seed"])
    cls = ref.equivalence_class(n, dag)
    cp = set(ref.union_graph(cls))
    free = sorted(a for a in dag if a[::-1] in cp)
    q = rng.choice([0.2, 0.4, 0.7])
    bg = {a for a in free if rng.random() < q}
    members = [d for d in cls if bg <= d]
    start = {a for a in cp if a[::-1] not in bg}
    return n, start, bg, set(ref.union_graph(members)), rng


def with_background(c, t):
    n, start, bg, want, rng = background_of(c)
    g = orient.partially_directed_graph(n, start, c["order"], c["seed"] % 4 == 0)
    orient.model_with(orient.pc_rules()[1:], g).execute_pipeline_steps()
    with t.reading("graph"):
        got = build.arcs_of(g)
    t.check(got == want, lambda: f"completing {sorted(start)} (background {sorted(bg)}): got {sorted(got)}, expected {sorted(want)}")
    check_types(t, g)
    t.nontrivial(want != start)


def single_rules(c, t):
    from causy.causal_discovery.constraint.orientation_rules import pc

    n, start, bg, want, rng = background_of(c)
    names = ["NonColliderTest", "FurtherOrientTripleTest", "OrientQuadrupleTest", "FurtherOrientQuadrupleTest"]
    pick = rng.sample(names, rng.choice([1, 1, 2, 3]))
    g = orient.partially_directed_graph(n, start, c["order"], c["seed"] % 4 == 0)
    orient.model_with([getattr(pc, k)() for k in pick], g).execute_pipeline_steps()
    with t.reading("graph"):
        got = build.arcs_of(g)
    t.check(want <= got <= start, lambda: f"{pick} on {sorted(start)}: got {sorted(got)}, but only {sorted(start - want)} may be removed")
    t.nontrivial(got != start)
    for k in pick:
        t.label(k, got != start)


SUBS = [
    Enum("collider_chains", chains, from_skeleton),
    Gen("sparse_skeleton", sparse_cases, from_skeleton, quick=800, thorough=6000),
    Gen("sparse_background", sparse_cases, with_background, quick=800, thorough=6000),
    Enum("small_dags", small, from_skeleton),
    Gen("from_skeleton", cases, from_skeleton, quick=6000, thorough=25000),
    Gen("background", cases, with_background, quick=6000, thorough=25000),
    Gen("single_rules", cases, single_rules, quick=5000, thorough=20000),
]
