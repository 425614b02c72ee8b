import itertools
import random

from hypothesis import strategies as st

from vf.core import Gen, Enum, Discard
from vf import build, data, ref

RULE = ("a DAG on 2-6 nodes (all DAGs on 3 nodes enumerated, larger ones random), polytrees on 6-8 nodes and chains behind "
        "a collider on 6-9, pairs separated only by 2-5 common causes, generic edge weights, and a data "
        "set whose sample covariance is exactly that of the linear model (so the sample has exactly the DAG's "
        "independences, with a safe margin to the threshold), presented in some column order, units and means; every "
        "shipped algorithm (ParallelPC with a generated schedule and sampling rate) must return the CPDAG, with "
        "one-way edges typed directed and two-way edges undirected. Non-trivial: the CPDAG has both a directed edge "
        "and a missing edge.")
ASSUMPTIONS = ["faithful data: cases without weights that give every dependence p < threshold/20 are discarded"]
ALGOS = ["PC", "PCClassic", "PCStable", "ParallelPC"]


@st.composite
def cases(draw):
    c = draw(build.dags(4, 6))
    c["seed"] = draw(st.integers(0, 10**6))
    c["thr"] = draw(st.sampled_from([0.05, 0.05, 0.01, 0.2]))
    c["order"] = draw(st.permutations(range(c["n"])))
    c["scale"] = draw(st.lists(st.sampled_from([1.0, 1.0, -2.0, 0.1, 1000.0]), min_size=c["n"], max_size=c["n"]))
    c["shift"] = draw(st.lists(st.sampled_from([0.0, 0.0, 5.0, -3.0]), min_size=c["n"], max_size=c["n"]))
    c["algo"] = draw(st.sampled_from(ALGOS))
    c["sched"] = draw(st.integers(0, 50))
    c["every"] = draw(st.sampled_from([0, 2, 200]))
    return c


@st.composite
def tree_cases(draw):
    c = draw(build.sparse_dags(6, 8, extra=0))
    c.update(seed=draw(st.integers(0, 10**6)), thr=0.05, order=draw(st.permutations(range(c["n"]))),
             scale=[1.0] * c["n"], shift=[0.0] * c["n"], algo=draw(st.sampled_from(ALGOS)),
             sched=draw(st.integers(0, 50)), every=draw(st.sampled_from([0, 2, 200])), polytree=True)
    return c


def small(tier):
    k = 0
    for n in (2, 3):
        for d in ref.all_dags(n):
            for algo in ALGOS:
                k += 1
                order = list(itertools.permutations(range(n)))[k % (2 if n == 2 else 6)]
                yield {"n": n, "dag": sorted(d), "seed": k, "thr": 0.05, "order": order, "scale": [1.0] * n,
                       "shift": [0.0] * n, "algo": algo, "sched": k % 7, "every": 200}


def check_types(t, g):
    with t.reading("edge type"):
        for e in g.retrieve_edges():
            both = g.directed_edge_exists(e.v, e.u)
            want = "UNDIRECTED" if both else "DIRECTED"
            t.equal(e.edge_type.name, want, f"type of the edge {e.u.id}->{e.v.id} ({'two' if both else 'one'}-way)")


def chains(tier):
    """two causes of one node, and a chain hanging on it: every later edge waits for the one before"""
    k = 0
    for n in (6, 7, 8, 9):
        for o in range(2 if tier == "quick" else 12):
            for algo in ALGOS:
                k += 1
                ids = list(range(n))
                random.Random(k).shuffle(ids)
                dag = [[ids[0], ids[2]], [ids[1], ids[2]]] + [[ids[i], ids[i + 1]] for i in range(2, n - 1)]
                order = [ids[::-1], ids][o] if o < 2 else random.Random(-k).sample(ids, n)
                yield {"n": n, "dag": sorted(dag), "seed": k, "thr": 0.05, "order": order, "scale": [1.0] * n,
                       "shift": [0.0] * n, "algo": algo, "sched": k % 7, "every": 200, "polytree": True}


def common(tier):
    """two variables that are separated by k common causes and by nothing less"""
    k = 0
    for parents in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6):
        for o in range(3 if tier == "quick" else 8):
            for algo in ALGOS:
                k += 1
                n = parents + 2
                ids = list(range(n))
                random.Random(k).shuffle(ids)
                dag = [[ids[i], ids[parents + j]] for i in range(parents) for j in (0, 1)]
                yield {"n": n, "dag": sorted(dag), "seed": k, "thr": 0.05, "order": random.Random(-k).sample(ids, n),
                       "scale": [1.0] * n, "shift": [0.0] * n, "algo": algo, "sched": k % 7, "every": 200,
                       "positive": True}


def longest(n, arcs):
    """length of the longest directed path of an acyclic arc set"""
    best = {}
    for v in reversed(ref.topological(n, arcs)):
        best[v] = max([best[b] + 1 for a, b in arcs if a == v], default=0)
    return max(best.values(), default=0)


def evaluate(c, t):
    n, dag = c["n"], {tuple(a) for a in c["dag"]}
    ds = data.faithful_dataset(n, dag, c["seed"], c["thr"], polytree=c.get("polytree", False),
                               positive=c.get("positive", False))
    if ds is None:
        raise Discard()
    x = ds[0] * c["scale"] + c["shift"]
    keys = data.names(n)
    rows = [{keys[i]: float(r[i]) for i in c["order"]} for r in x]
    var = {"threshold": c["thr"]}
    if c["algo"] == "ParallelPC":
        var["every_nth_sample"] = c["every"]
    m = data.discover(c["algo"], x, var, c["sched"], data=rows)
    want = set(ref.cpdag(n, dag))
    with t.reading("graph"):
        got = build.arcs_of(m.graph)
    t.check(got == want, lambda: f"{c['algo']} on data from {sorted(dag)} ({len(x)} rows): got {sorted(got)}, CPDAG is {sorted(want)}")
    check_types(t, m.graph)
    one = any((b, a) not in want for (a, b) in want)
    t.nontrivial(one and len({frozenset(a) for a in want}) < n * (n - 1) / 2)
    t.label(c["algo"])
    t.label("chain of 4 or more oriented edges", longest(n, {a for a in want if a[::-1] not in want}) >= 4)
    t.label("oriented by a rule beyond colliders", one and len({(a, b) for a, b in want if (b, a) not in want}) >
            len({(p, z) for (q, z, r) in ref.v_structures(n, dag) for p in (q, r)}))


SUBS = [
    Enum("small_dags", small, evaluate, timeout=120),
    Gen("random_dags", cases, evaluate, quick=1600, thorough=16000, timeout=120),
    Enum("collider_chains", chains, evaluate, timeout=120),
    Enum("common_causes", common, evaluate, timeout=200),
    Gen("polytrees", tree_cases, evaluate, quick=200, thorough=5000, timeout=120),
]
