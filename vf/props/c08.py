import itertools

from hypothesis import strategies as st

from vf.core import Gen, Discard
from vf import data
from vf.build import nm

RULE = ("a data set (3-6 variables, 15-150 rows, weak to strong linear dependence, ties, shifted and rescaled "
        "variables), a threshold and one of the shipped algorithms (ParallelPC on an in-process pool with a "
        "generated schedule); after a full run every missing edge must be justified by a recorded separating set "
        "that an independent Fisher test accepts, and every remaining edge must be rejected by every test the "
        "algorithm owes (marginal, single common neighbours, larger subsets of either end's remaining neighbours; "
        "PCStable: every subset of the other variables). p-values within 1e-7 of the threshold are not judged. "
        "Non-trivial: some edge removed by a non-empty set and some edge kept.")
ASSUMPTIONS = ["correlation matrices with condition number below 1e6", "more samples than variables + 3"]
EPS = 1e-7


@st.composite
def cases(draw):
    c = draw(data.noisy_cases(3, 6, 15, 150))
    c["algo"] = draw(st.sampled_from(["PC", "PC", "PCClassic", "PCStable", "ParallelPC"]))
    c["thr"] = draw(st.sampled_from([0.01, 0.05, 0.05, 0.2, 0.5]))
    c["sched"] = draw(st.integers(0, 50))
    c["every"] = draw(st.sampled_from([0, 1, 200]))
    return c


def removals(t, model):
    """pair -> separating set of the first recorded removal"""
    from causy.models import TestResultAction as A

    out = {}
    with t.reading("action history"):
        for s in data.flat_history(model.graph.action_history):
            for a in s.actions:
                if a.action == A.REMOVE_EDGE_UNDIRECTED:
                    key = frozenset((a.u.id, a.v.id))
                    out.setdefault(key, [k.id for k in a.data["separatedBy"]])
    return out


def evaluate(c, t):
    x = data.dataset(c)
    s = data.Stat(x)
    if any(s.constant) or s.cond() > 1e6:
        raise Discard()
    n, thr = c["n"], c["thr"]
    var = {"threshold": thr}
    if c["algo"] == "ParallelPC":
        var["every_nth_sample"] = c["every"]
    m = data.discover(c["algo"], x, var, c["sched"])
    g = m.graph
    idx = {nm(i): i for i in range(n)}
    rem = removals(t, m)
    adj = {i: {j for j in range(n) if j != i and g.edge_exists(g.nodes[nm(i)], g.nodes[nm(j)])} for i in range(n)}
    kept = removed_by = 0

    def rejected(i, j, z):
        p = s.p(i, j, z)
        if abs(p - thr) < EPS:
            return True
        return p <= thr

    for i, j in itertools.combinations(range(n), 2):
        pair = f"{nm(i)},{nm(j)}"
        if j not in adj[i]:
            sep = rem.get(frozenset((nm(i), nm(j))))
            t.check(sep is not None, f"{c['algo']}: {pair} are not adjacent but no removal is recorded")
            z = [idx[k] for k in sep]
            t.check(len(set(z)) == len(z) and not {i, j} & set(z), f"{c['algo']}: {pair} separated by {sep}")
            p = s.p(i, j, z)
            t.check(p > thr - EPS, f"{c['algo']}: {pair} removed given {sep} at {thr}, but p = {p}")
            removed_by += bool(z)
            continue
        kept += 1
        t.check(frozenset((nm(i), nm(j))) not in rem, f"{c['algo']}: {pair} are adjacent although a removal is recorded")
        rest = [k for k in range(n) if k not in (i, j)]
        owed = {()}
        if c["algo"] == "PCStable":
            owed |= {z for k in range(1, len(rest) + 1) for z in itertools.combinations(rest, k)}
        else:
            lo = 1 if c["algo"] == "PCClassic" else 2
            if lo == 2:
                owed |= {(z,) for z in adj[i] & adj[j]}
            for a, b in ((i, j), (j, i)):
                nb = sorted(adj[a] - {b})
                owed |= {z for k in range(lo, len(nb) + 1) for z in itertools.combinations(nb, k)}
        for z in owed:
            t.check(rejected(i, j, z),
                    lambda: f"{c['algo']}: edge {pair} kept at {thr} although {[nm(q) for q in z]} separates it (p = {s.p(i, j, z)})")
        t.label("kept edge with 2 or more controls", any(len(z) > 1 for z in owed))
    t.nontrivial(kept and removed_by)
    t.label(c["algo"])
    t.label("removed by non-empty set", removed_by)


SUBS = [Gen("skeleton", cases, evaluate, quick=3000, thorough=20000, timeout=120)]
