import itertools
from collections import Counter

from hypothesis import strategies as st

from vf.core import Gen
from vf import build
from vf.build import nm

RULE = ("a graph on 1-8 nodes (mixed for edge pairs, undirected for neighbourhoods, with soft-deleted edges), a "
        "generator and its settings (sizes min..max with 0 = all, chunking, chunk size, shuffling, sampling rate); "
        "the produced combinations are compared as a multiset with a direct enumeration. Non-trivial: at least "
        "3 combinations are expected and the settings exclude some combination of the nodes.")
ASSUMPTIONS = ["neighbourhood combinations are claimed for graphs whose edges are all undirected (the skeleton phase)"]


def settings_st(lo):
    return st.fixed_dictionaries({"min": st.integers(lo, 5), "max": st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7, 8])})


def sizes(s, n):
    top = n if s["max"] == 0 else min(s["max"], n)
    return range(s["min"], top + 1)


def cs(s):
    from causy.models import ComparisonSettings

    return ComparisonSettings(min=s["min"], max=s["max"])


def counts(items):
    return Counter(items)


def diff(got, want):
    return f"missing {list((want - got).items())[:5]}, unexpected or repeated {list((got - want).items())[:5]}"


# --- all combinations
def all_st():
    return st.fixed_dictionaries({
        "g": build.with_deleted(build.mixed_graphs(1, 8), "arcs"), "s": settings_st(1)})


def run_all(c, t):
    from causy.generators import AllCombinationsGenerator

    g = build.build_case(c["g"], c["g"]["arcs"])
    n = c["g"]["n"]
    out = list(AllCombinationsGenerator(comparison_settings=cs(c["s"])).generate(g.graph, None))
    with t.reading("combination"):
        got = []
        for x in out:
            x = list(x)
            t.check(len(set(x)) == len(x) and all(k in g.nodes for k in x), f"not a combination of node ids: {x}")
            got.append(frozenset(x))
    want = counts(frozenset(x) for k in sizes(c["s"], n) for x in itertools.combinations(map(nm, range(n)), k))
    got = counts(got)
    t.check(got == want, lambda: f"AllCombinationsGenerator {c['s']} on {n} nodes: {diff(got, want)}")
    t.nontrivial(len(want) >= 3 and len(want) < 2 ** n - 1)
    t.label("max is all", c["s"]["max"] == 0)
    t.label("nothing to generate", not want)


# --- pairs with an edge
def pairs_st():
    return st.fixed_dictionaries({
        "g": build.with_deleted(build.mixed_graphs(1, 6), "arcs"),
        "chunked": st.sampled_from([None, False, True, True]), "size": st.integers(1, 9)})


def run_pairs(c, t):
    from causy.generators import PairsWithEdgesInBetweenGenerator

    g = build.build_case(c["g"], c["g"]["arcs"])
    kw = {} if c["chunked"] is None else {"chunked": c["chunked"], "chunk_size": c["size"]}
    out = list(PairsWithEdgesInBetweenGenerator(**kw).generate(g.graph, None))
    with t.reading("pair"):
        if c["chunked"]:
            t.check(all(1 <= len(ch) <= c["size"] for ch in out),
                    f"chunks of {[len(ch) for ch in out]} elements with chunk size {c['size']}")
            out = [p for ch in out for p in ch]
        got = counts(tuple(p) for p in out)
    want = counts((nm(i), nm(j)) for i, j in c["g"]["arcs"])
    t.check(got == want, lambda: f"PairsWithEdgesInBetweenGenerator {kw}: {diff(got, want)}")
    t.nontrivial(len(want) >= 3 and len(want) < c["g"]["n"] * (c["g"]["n"] - 1))
    t.label("several chunks", bool(c["chunked"]) and len(want) > c["size"])


# --- pairs with neighbours
@st.composite
def undirected(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 6, 3, 4, 5, 6, 8]))
    pairs = [p for p in itertools.combinations(range(n), 2) if draw(st.integers(0, 3)) > 0]
    d = draw(build.with_deleted(st.just({"n": n, "arcs": [list(p) for p in pairs]}), "arcs"))
    d["arcs"] = [[i, j] for i, j in pairs] + [[j, i] for i, j in pairs]
    d["half_deleted"] = []
    return d


def neigh_st():
    return st.fixed_dictionaries({
        "g": undirected(), "s": settings_st(2),
        "chunked": st.booleans(), "shuffle": st.booleans(),
        "every": st.sampled_from([None, None, 0, 1, 3])})


def run_neigh(c, t):
    from causy.generators import PairsWithNeighboursGenerator, RandomSampleGenerator

    g = build.build_case(c["g"], c["g"]["arcs"])
    n = c["g"]["n"]
    gen = PairsWithNeighboursGenerator(
        comparison_settings=cs(c["s"]), chunked=c["chunked"], shuffle_combinations=c["shuffle"])
    if c["every"] is not None:
        gen = RandomSampleGenerator(generator=gen, every_nth=c["every"], chunked=c["chunked"])
    out = list(gen.generate(g.graph, None))
    with t.reading("combination"):
        flat = [x for ch in out for x in ch] if c["chunked"] else out
        for x in flat:
            t.check(all(isinstance(k, str) for k in x), f"not a list of node ids: {x!r}")
            t.check(len(set(x)) == len(x) and len(x) >= 2, f"not a combination: {x!r}")
        got = counts((x[0], x[1], frozenset(x[2:])) for x in flat)
    adj = {i: {b for a, b in c["g"]["arcs"] if a == i} for i in range(n)}
    want = counts(
        (nm(u), nm(v), frozenset(map(nm, z)))
        for k in sizes(c["s"], n) for u in range(n) for v in adj[u]
        for z in itertools.combinations(sorted(adj[u] - {v}), k - 2))
    if c["every"]:
        t.check(not got - want, lambda: f"sampled generator: {diff(got, want)}")
        t.label("sampled", bool(want))
    else:
        t.check(got == want, lambda: f"PairsWithNeighboursGenerator {c}: {diff(got, want)}")
    t.nontrivial(len(want) >= 3 and bool(c["g"]["deleted"]))
    t.label("chunked", c["chunked"])
    t.label("with a conditioning set of 2 or more", any(len(z) >= 2 for _, _, z in want))


def rejects_st():
    return st.fixed_dictionaries({"g": undirected(), "min": st.integers(0, 1), "max": st.integers(1, 5)})


def run_rejects(c, t):
    from causy.generators import PairsWithNeighboursGenerator

    g = build.build_case(c["g"], c["g"]["arcs"])
    if c["max"] < c["min"]:
        return
    gen = PairsWithNeighboursGenerator(comparison_settings=cs(c))
    t.raises(ValueError, lambda: list(gen.generate(g.graph, None)), "PairsWithNeighboursGenerator with min below 2")
    t.nontrivial()


SUBS = [
    Gen("all_combinations", all_st, run_all, quick=3750, thorough=20000),
    Gen("pairs_with_edges", pairs_st, run_pairs, quick=3750, thorough=20000),
    Gen("pairs_with_neighbours", neigh_st, run_neigh, quick=6250, thorough=30000),
    Gen("too_small", rejects_st, run_rejects, quick=150, thorough=500),
]
