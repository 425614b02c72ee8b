"""Data sets whose *sample* covariance is exactly that of a linear SEM over a given DAG, so that every
sample partial correlation is (numerically) zero iff the DAG says so: no statistical flakiness."""
import itertools
import math

import numpy as np

from vf import ref


def sem_cov(n, dag, coef):
    """covariance of x = B^T x + e, unit noise; coef: {(i,j): weight of i->j}"""
    B = np.zeros((n, n))
    for (i, j) in dag:
        B[j, i] = coef[(i, j)]
    A = np.linalg.inv(np.eye(n) - B)
    return A @ A.T


def partial_corr(cov, i, j, z):
    idx = [i, j] + list(z)
    p = np.linalg.inv(cov[np.ix_(idx, idx)])
    return -p[0, 1] / math.sqrt(p[0, 0] * p[1, 1])


def exact_sample(cov, m, seed, mean=None, scale=None):
    """m rows whose sample covariance is exactly proportional to cov"""
    n = cov.shape[0]
    rng = np.random.RandomState(seed)
    x = rng.standard_normal((m, n))
    x -= x.mean(axis=0)
    q, _ = np.linalg.qr(x)
    q -= q.mean(axis=0)
    q, _ = np.linalg.qr(q)
    x = q * math.sqrt(m)
    x = x @ np.linalg.cholesky(cov).T
    if scale is not None:
        x = x * np.asarray(scale)
    if mean is not None:
        x = x + np.asarray(mean)
    return x


def faithful_dataset(n, dag, seed, threshold=0.05, max_m=6000, polytree=False, positive=False):
    """polytree: the skeleton is a forest, so that no conditioning set of two or more nodes is ever needed for a
    pair without an edge (margins are asked for the tests a PC run can reach only).
    positive: all weights about one, and a pair without marginal dependence (which the first test separates for
    good) needs no further margins.
    (rows as ndarray m x n, cov, coef) or None if no seed gives a comfortable margin.
    Every d-connected (i,j|Z) has Fisher p < threshold/20 and every d-separated one has |pc| < 1e-9."""
    dag = {tuple(a) for a in dag}
    zthr = {0.05: 3.1, 0.01: 3.6}.get(threshold)
    if zthr is None:
        from scipy import stats

        zthr = stats.norm.ppf(1 - threshold / 40)
    for attempt in range(12):
        rng = np.random.RandomState((seed * 131 + attempt) % (2**31))
        coef = {a: rng.choice([-1, 1]) * (rng.uniform(0.5, 1.1) if not polytree else rng.uniform(0.8, 1.6)) for a in sorted(dag)}
        if positive:
            coef = {a: rng.uniform(0.85, 1.15) for a in sorted(dag)}
        cov = sem_cov(n, dag, coef)
        lo = 9.0
        ok = True
        for i, j in itertools.combinations(range(n), 2):
            rest = [k for k in range(n) if k not in (i, j)]
            for k in range(len(rest) + 1):
                if polytree and k > 1 and (i, j) not in dag and (j, i) not in dag:
                    break
                if positive and k > 0 and ref.d_separated(n, dag, i, j, set()):
                    break
                for z in itertools.combinations(rest, k):
                    r = abs(partial_corr(cov, i, j, z))
                    if ref.d_separated(n, dag, i, j, set(z)):
                        if r > 1e-9:
                            ok = False
                    else:
                        lo = min(lo, math.atanh(min(r, 1 - 1e-12)))
        if not ok:
            continue
        m = max(40, int((zthr / lo) ** 2) + n + 4) if lo < 9 else 40
        if m <= max_m:
            return exact_sample(cov, m, seed), cov, coef
    return None


def rows(x, names):
    return [dict(zip(names, map(float, r))) for r in x]


# ---------------------------------------------------------------- arbitrary (noisy) data sets
def noisy_cases(min_n=2, max_n=5, min_m=12, max_m=150, affine=True, kinds=("sem", "sem", "sem", "ints", "noise")):
    from hypothesis import strategies as st

    from vf import build

    def scale(n):
        one = st.sampled_from([1.0, 1.0, 2.5, -1.0, 1e-3, 1e4, 1e-9, 1e12])
        return st.lists(one, min_size=n, max_size=n)

    def shift(n):
        return st.lists(st.sampled_from([0.0, 0.0, 3.0, -40.0]), min_size=n, max_size=n)

    return build.dags(min_n, max_n).flatmap(lambda d: st.fixed_dictionaries({
        "n": st.just(d["n"]), "dag": st.just(d["dag"]),
        "m": st.integers(min_m, max_m), "seed": st.integers(0, 10**6),
        "kind": st.sampled_from(kinds),
        "strength": st.sampled_from([0.2, 0.5, 1.0]),
        "scale": scale(d["n"]) if affine else st.just([1.0] * d["n"]),
        "shift": shift(d["n"]) if affine else st.just([0.0] * d["n"]),
    }))


def dataset(c):
    """the data set a noisy case describes (m x n)"""
    rng = np.random.RandomState(c["seed"])
    n, m = c["n"], c["m"]
    x = rng.standard_normal((m, n))
    if c["kind"] != "noise":
        dag = {tuple(a) for a in c["dag"]}
        for j in ref.topological(n, dag):
            for i in range(n):
                if (i, j) in dag:
                    x[:, j] += c["strength"] * rng.choice([-1, 1]) * rng.uniform(0.5, 1.5) * x[:, i]
    if c["kind"] == "ints":
        x = np.round(x)
    return (x + np.asarray(c["shift"])) * np.asarray(c["scale"])


class Stat:
    """textbook correlation / partial correlation / Fisher p-values of a data set"""

    def __init__(self, x):
        self.m = x.shape[0]
        sd = x.std(axis=0)
        self.constant = [bool(s == 0 or s < 1e-12 * np.abs(c).max()) for s, c in zip(sd, x.T)]
        z = (x - x.mean(axis=0)) / np.where(sd == 0, 1, sd)
        self.corr = (z.T @ z) / self.m

    def cond(self):
        return np.linalg.cond(self.corr)

    def r(self, i, j, z=()):
        if not z:
            return float(self.corr[i, j])
        return float(partial_corr(self.corr, i, j, z))

    def p(self, i, j, z=()):
        return ref.fisher_p(self.r(i, j, z), self.m, len(tuple(z)))


def names(n):
    from vf.build import nm

    return [nm(i) for i in range(n)]


MODULE = "causy.causal_discovery.constraint.algorithms.pc."


def algorithm(which):
    """a fresh Algorithm (with unresolved variables) of a shipped algorithm"""
    from causy.serialization import load_algorithm_by_reference

    return load_algorithm_by_reference("python_module", MODULE + which)


def discover(which, x, variables=None, sched=0, keys=None, data=None):
    """run a shipped algorithm on data; ParallelPC runs on the in-process pool with schedule `sched`"""
    from causy.graph_model import graph_model_factory

    from vf.pool import fake_pools

    keys = keys or names(x.shape[1])
    with fake_pools(seed=sched):
        alg = algorithm(which)
        var = {v.name: v.value for v in alg.variables}
        var.update(variables or {})
        model = graph_model_factory(alg, var)()
        model.create_graph_from_data(data if data is not None else rows(x, keys))
        model.create_all_possible_edges()
        model.execute_pipeline_steps()
    return model


def flat_history(history):
    """every leaf ActionHistoryStep in order"""
    for s in history:
        if s.steps:
            yield from flat_history(s.steps)
        else:
            yield s
