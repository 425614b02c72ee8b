import itertools

from hypothesis import strategies as st

from vf.core import Gen
from vf import build, orient
from vf.props.c09 import check_types
from vf.props.c10 import rules

RULE = ("an arbitrary undirected skeleton on 3-7 nodes with arbitrary recorded separating sets for the missing edges "
        "(as finite-sample tests produce: generally not those of any DAG, so collider rules conflict), either collider "
        "conflict strategy, any node order; the orientation phase must end, keep exactly the same pairs adjacent, and "
        "leave only one-way edges typed directed and two-way edges typed undirected. Also arbitrary partially directed "
        "(even cyclic) starting graphs, random or made of the premises of several rules about the same edge, for the rule loop and for each rule alone, which may only remove directions. "
        "Non-trivial: two unshielded colliders disagree about an edge, or a single rule orients one.")
ASSUMPTIONS = ["every missing edge has one recorded removal, as after the skeleton phase"]


@st.composite
def cases(draw):
    n = draw(st.integers(3, 7))
    dens = draw(st.integers(1, 4))
    pairs = list(itertools.combinations(range(n), 2))
    skel = [list(p) for p in pairs if draw(st.integers(0, 4)) <= dens]
    q = draw(st.integers(0, 4))
    sep = []
    for p in pairs:
        if list(p) not in skel:
            sep.append([list(p), [k for k in range(n) if k not in p and draw(st.integers(0, 5)) < q]])
    return {"n": n, "skel": skel, "sep": sep, "order": draw(st.permutations(range(n))),
            "strategy": draw(st.sampled_from([None, "KEEP_FIRST", "KEEP_LAST", "KEEP_LAST"])), "bare": draw(st.integers(0, 3)) == 0}


def evaluate(c, t):
    n = c["n"]
    skel = {frozenset(p) for p in c["skel"]}
    sep = {tuple(p): z for p, z in c["sep"]}
    g = orient.skeleton_graph(n, skel, sep, c["order"], c.get("bare", False))
    orient.model_with(rules(c["strategy"]), g).execute_pipeline_steps()
    with t.reading("graph"):
        got = build.arcs_of(g)
    adj = {frozenset(a) for a in got}
    t.check(adj == skel, lambda: f"orientation with {c['strategy']} changed the adjacencies: lost "
            f"{sorted(map(sorted, skel - adj))}, gained {sorted(map(sorted, adj - skel))}")
    check_types(t, g)
    coll = set()
    for (i, j), z in sep.items():
        for k in range(n):
            if k not in (i, j) and k not in z and {frozenset((i, k)), frozenset((j, k))} <= skel:
                coll |= {(i, k), (j, k)}
    t.nontrivial(any(a[::-1] in coll for a in coll))
    t.label("collider", bool(coll))
    t.label("strategy " + str(c["strategy"]))


@st.composite
def loop_cases(draw):
    c = draw(build.mixed_graphs(3, 6))
    c["order"] = draw(st.permutations(range(c["n"])))
    c["bare"] = draw(st.integers(0, 3)) == 0
    return c


# premises of the rules: nodes 0 and 1 are the edge that would be oriented (0 -> 1)
PATTERNS = [
    {(2, 0): "->", (2, 1): "no"},
    {(0, 2): "->", (2, 1): "->"},
    {(2, 1): "->", (3, 1): "->", (0, 2): "--", (0, 3): "--", (2, 3): "no"},
    {(2, 3): "->", (3, 1): "->", (0, 2): "--", (0, 3): "--", (1, 2): "no"},
]


@st.composite
def pattern_cases(draw):
    """premises of several rules put on top of each other, mostly about the same edge, in either direction"""
    n = draw(st.integers(4, 7))
    table = {}
    for k in range(draw(st.integers(2, 4))):
        p = draw(st.sampled_from(PATTERNS))
        if draw(st.integers(0, 3)):
            ends = [0, 1] if draw(st.booleans()) else [1, 0]
            m = ends + draw(st.permutations([x for x in range(n) if x > 1]))
        else:
            m = draw(st.permutations(range(n)))
        for (i, j), kind in [((0, 1), "--")] + list(p.items()):
            table.setdefault(frozenset((m[i], m[j])), (m[i], m[j], kind))
    arcs = []
    for i, j in itertools.combinations(range(n), 2):
        a, b, kind = table.get(frozenset((i, j))) or (i, j, draw(st.sampled_from(["no", "no", "no", "--", "->"])))
        if kind != "no":
            arcs.append([a, b])
        if kind == "--":
            arcs.append([b, a])
    return {"n": n, "arcs": arcs, "order": draw(st.permutations(range(n))), "bare": draw(st.integers(0, 3)) == 0,
            "rules": draw(st.sampled_from([None, ["NonColliderTest"], ["FurtherOrientTripleTest"], ["OrientQuadrupleTest"], ["FurtherOrientQuadrupleTest"]]))}


def loop(c, t):
    from causy.causal_discovery.constraint.orientation_rules import pc

    arcs = {tuple(a) for a in c["arcs"]}
    g = orient.partially_directed_graph(c["n"], arcs, c["order"], c.get("bare", False))
    steps = [getattr(pc, k)() for k in c["rules"]] if c.get("rules") else orient.pc_rules()[1:]
    orient.model_with(steps, g).execute_pipeline_steps()
    with t.reading("graph"):
        got = build.arcs_of(g)
    t.check(got <= arcs, lambda: f"{c.get('rules') or 'the rule loop'} added {sorted(got - arcs)}")
    lost = {frozenset(a) for a in arcs} - {frozenset(a) for a in got}
    t.check(not lost, lambda: f"{c.get('rules') or 'the rule loop'} removed the adjacencies {sorted(map(sorted, lost))} of {sorted(arcs)}")
    check_types(t, g)
    t.label("oriented something", got != arcs)
    t.nontrivial(bool(c.get("rules")) and got != arcs)


SUBS = [
    Gen("arbitrary_skeleton", cases, evaluate, quick=9000, thorough=40000, timeout=60),
    Gen("arbitrary_start", loop_cases, loop, quick=6000, thorough=20000, timeout=60),
    Gen("rule_premises", pattern_cases, loop, quick=6000, thorough=30000, timeout=60),
]
