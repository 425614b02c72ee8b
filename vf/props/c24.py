import itertools
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from vf.core import Gen

RULE = ("(1) a set of weighted edges over 2-6 variables with names in any order and a source of distinct integer noise "
        "values: the residual of every variable given its parents must use up the drawn noise values, each once; cyclic sets are "
        "rejected; (2) lagged edges (lags 1-5, own past included) of a stable system: the same for every point in time from "
        "a variable's longest lag on, first values with the standard deviation of the stationary distribution; (both) the graph has exactly the variables, values and edges. "
        "Non-trivial: a variable with two parents or a path of length two (1), two lags or two parents (2).")
ASSUMPTIONS = ["no two edges between the same ordered pair of variables (and lag)", "time series: lagged edges only, absolute weights into a "
               "variable sum to less than one, or edges between different variables follow an order and own lags are below one"]
NAMES = ["X", "Y", "Z", "a", "B", "x10", "x9", "Ä"]


@st.composite
def iid_cases(draw):
    n = draw(st.integers(2, 6))
    names = draw(st.permutations(NAMES))[:n]
    pairs = list(itertools.combinations(range(n), 2))
    es = []
    for i, j in draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=len(pairs), unique=True)):
        es.append([names[i], names[j], draw(st.sampled_from([1, -1, 2, 3, -4, 0.5, 7, 0]))])
    if draw(st.integers(0, 9)) == 0:
        a, b, w = es[0]
        es.append([b, a, 1] if draw(st.booleans()) else [a, a, 1])
    return {"edges": draw(st.permutations(es)), "size": draw(st.one_of(st.integers(1, 6), st.sampled_from([65, 130]))), "seed": draw(st.integers(0, 99)), "bool": draw(st.booleans())}


class Noise:
    """distinct integers in a scrambled order"""

    def __init__(self, seed):
        self.rng = np.random.RandomState(seed)
        self.pool = list(self.rng.permutation(4096))
        self.drawn = []

    def __call__(self):
        self.drawn.append(float(self.pool.pop()))
        return self.drawn[-1]


def cyclic(es):
    nodes = {k for e in es for k in e[:2]}
    left = set(nodes)
    while True:
        free = {k for k in left if not any(b == k and a in left for a, b, *_ in es)}
        if not free:
            return bool(left)
        left -= free


def iid(c, t):
    from causy.sample_generator import IIDSampleGenerator, NodeReference, SampleEdge

    es = c["edges"]
    noise = Noise(c["seed"])

    def make():
        g = IIDSampleGenerator([SampleEdge(NodeReference(a), NodeReference(b), w) for a, b, w in es], random=noise)
        return g.generate(c["size"])

    if cyclic(es):
        t.raises(ValueError, make, f"generator with cyclic edges {es}")
        t.label("cyclic")
        return
    out, graph = make()
    variables = sorted({k for e in es for k in e[:2]})
    with t.reading("generated data"):
        x = {k: [float(z) for z in v] for k, v in out.items()}
    t.equal(sorted(x), variables, "variables")
    t.equal({len(v) for v in x.values()}, {c["size"]}, "samples per variable")
    resid = []
    for k in variables:
        for i in range(c["size"]):
            resid.append(x[k][i] - sum(w * x[a][i] for a, b, w in es if b == k))
    t.equal(Counter(resid), Counter(noise.drawn), "residuals of the structural equations against the noise drawn")
    check_graph(graph, {k: x[k] for k in variables}, [(a, b) for a, b, _ in es], t)
    t.nontrivial(any(sum(e[1] == k for e in es) > 1 for k in variables) or any(e[1] == f[0] for e in es for f in es))


def check_graph(graph, values, es, t):
    with t.reading("graph"):
        t.equal({k: [float(z) for z in n.values] for k, n in graph.nodes.items()}, values, "nodes and values of the graph")
        t.equal(sorted((e.u.id, e.v.id, e.edge_type.name) for e in graph.retrieve_edges()),
                sorted((a, b, "DIRECTED") for a, b in es), "edges of the graph")


@st.composite
def ts_cases(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.permutations(NAMES))[:n]
    es = []
    for b in names:
        srcs = draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from([1, 1, 2, 2, 3, 3, 5])), min_size=0 if es else 1, max_size=3, unique=True))
        for a, lag in srcs:
            es.append([a, lag, b, draw(st.sampled_from([0.25, -0.25, 0.3, 0.125, -0.3, 0]))])
    if draw(st.integers(0, 2)) == 0:
        # a strongly coupled system: any weights along an order of the variables, own past below one
        n = draw(st.integers(2, 3))
        names = names[:n] if len(names) >= n else NAMES[:n]
        es = [[a, draw(st.integers(1, 3)), b, draw(st.sampled_from([5, -4, 2.5, 1, 3, -0.5]))]
              for a, b in itertools.combinations(names, 2) if draw(st.integers(0, 4))]
        es += [[a, 1, a, draw(st.sampled_from([0.8, 0.5, -0.75, 0.25]))] for a in names if draw(st.booleans()) or not es]
    return {"edges": draw(st.permutations(es)), "size": draw(st.one_of(st.integers(1, 9), st.just(40))), "seed": draw(st.integers(0, 99))}


def series(c, t):
    import torch
    from causy.sample_generator import SampleEdge, TimeAwareNodeReference, TimeseriesSampleGenerator

    es = c["edges"]
    noise = Noise(c["seed"])
    torch.manual_seed(c["seed"])

    def make(cls):
        return cls([SampleEdge(TimeAwareNodeReference(a, -lag), TimeAwareNodeReference(b), w) for a, lag, b, w in es], random=noise)

    out, graph = make(TimeseriesSampleGenerator).generate(c["size"])
    variables = sorted({k for a, _, b, _ in es for k in (a, b)})
    longest = max(e[1] for e in es)
    with t.reading("generated data"):
        x = {k: [float(z) for z in v] for k, v in out.items()}
    t.equal(sorted(x), variables, "variables")
    t.equal({len(v) for v in x.values()}, {c["size"]}, "points in time per variable")
    drawn = sorted(noise.drawn)
    t.equal(len(drawn), len(variables) * (c["size"] - 1), "noise values drawn")
    seen = Counter()
    for k in variables:
        for i in range(max((e[1] for e in es if e[2] == k), default=1), c["size"]):
            r = x[k][i] - sum(w * x[a][i - lag] for a, lag, b, w in es if b == k)
            t.check(abs(r - round(r)) < 1e-3, f"residual {r} of {k} at t={i} is not one of the noise values drawn")
            seen[float(round(r))] += 1
    t.check(not (seen - Counter(drawn)), f"residuals {dict(seen - Counter(drawn))} are not noise values drawn (each at most once)")
    values = {f"{k}-t{i}": [x[k][i]] for k in variables for i in range(c["size"])}
    check_graph(graph, values, [(f"{a}-t{i - lag}", f"{b}-t{i}") for a, lag, b, _ in es for i in range(lag, c["size"])], t)

    # standard deviation of the first values
    class Fixed(TimeseriesSampleGenerator):
        _initial_distribution_fn = lambda self, s: s  # noqa

    first, _ = make(Fixed).generate(1)
    n, p = len(variables), longest
    A = np.zeros((n * p, n * p))
    for a, lag, b, w in es:
        A[variables.index(b), (lag - 1) * n + variables.index(a)] = w
    for i in range(n * (p - 1)):
        A[n + i, i] = 1
    q = np.zeros((n * p, n * p))
    q[:n, :n] = np.eye(n)
    v = np.zeros_like(q)
    for _ in range(2000):
        new = A @ v @ A.T + q
        if np.abs(new - v).max() < 1e-13:
            break
        v = new
    for i, k in enumerate(variables):
        t.close(float(first[k][0]), float(np.sqrt(v[i, i])), f"standard deviation of the first value of {k}", rel=2e-3)
    t.nontrivial(len({e[1] for e in es}) > 1 or any(sum(e[2] == k for e in es) > 1 for k in variables))
    t.label("strongly coupled", any(abs(e[3]) >= 1 for e in es))


SUBS = [
    Gen("iid", iid_cases, iid, quick=7500, thorough=30000),
    Gen("series", ts_cases, series, quick=3600, thorough=15000),
]
