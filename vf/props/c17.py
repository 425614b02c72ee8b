import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vf.core import Gen, Discard, reset_global_state
from vf import build, data
from vf.child import actions, edges, job
from vf.scratch import scratch

RULE = ("(1) a data set, threshold and shipped algorithm, and a transformation: rows permuted, each variable shifted "
        "and rescaled (units from 1e-12 to 1e12, sign flips), variables renamed: the sequence of removals, separating "
        "sets and orientations must be the same, and direct effects must scale with the units; (2) batches of "
        "discovery runs and seeded sample generators executed in separate processes with different hash seeds, twice "
        "in one process each: identical results, histories and hashes. Non-trivial: an edge was removed given a "
        "non-empty set and one was oriented (1), a batch with such a run (2).")
ASSUMPTIONS = ["units whose covariance determinant is representable (beyond: known finding F3)",
               "the order in which the members of a separating set are listed is not compared (it is a set)",
               "no test's p-value within 1e-6 of the threshold", "correlation matrices with condition number below 1e6"]
UNITS = [1.0, 2.0, -1.0, 1e-3, 1e6, 1e12, -1e-12]


def judged(x, thr):
    s = data.Stat(x)
    n = x.shape[1]
    if any(s.constant) or s.cond() > 1e6:
        raise Discard()
    for i, j in itertools.combinations(range(n), 2):
        rest = [k for k in range(n) if k not in (i, j)]
        for k in range(len(rest) + 1):
            for z in itertools.combinations(rest, k):
                if abs(s.p(i, j, z) - thr) < 1e-6:
                    raise Discard()


@st.composite
def cases(draw):
    c = draw(data.noisy_cases(3, 6, 15, 120, affine=False))
    n = c["n"]
    c["algo"] = draw(st.sampled_from(["PC", "PCClassic", "PCStable", "ParallelPC"]))
    c["thr"] = draw(st.sampled_from([0.01, 0.05, 0.2]))
    c["sched"] = draw(st.integers(0, 50))
    c["perm_seed"] = draw(st.integers(0, 10**6))
    c["units"] = draw(st.lists(st.sampled_from(UNITS), min_size=n, max_size=n)) if draw(st.booleans()) else [1.0] * n
    c["means"] = draw(st.lists(st.sampled_from([0.0, 0.0, 7.0, -30.0]), min_size=n, max_size=n))
    c["names"] = draw(st.permutations(["a", "zz", "Z", "b1", "b10", "0"][:n]))
    c["what"] = draw(st.sampled_from(["rows", "units", "names", "all"]))
    return c


def run(c, x, keys):
    reset_global_state()  # ParallelPC shuffles its combinations
    m = data.discover(c["algo"], x, {"threshold": c["thr"]}, c["sched"], keys=keys)
    return m


def invariance(c, t):
    x = data.dataset(c)
    judged(x, c["thr"])
    n = c["n"]
    k1 = data.names(n)
    k2 = list(c["names"]) if c["what"] in ("names", "all") else k1
    y = x
    units = [1.0] * n
    if c["what"] in ("units", "all"):
        units = c["units"]
        y = (x + np.asarray(c["means"])) * np.asarray(units)
    if c["what"] in ("rows", "all"):
        y = y[np.random.RandomState(c["perm_seed"]).permutation(len(y))]
    a, b = run(c, x, k1), run(c, y, k2)
    back = dict(zip(k2, k1))
    with t.reading("history"):
        def shape(m, f):
            out = []
            for name, act, u, v, d in actions(m):
                if act.startswith("UPDATE"):
                    continue
                out.append((name, act, f[u], f[v], sorted(f[k] for k in d["separatedBy"]) if "separatedBy" in d else None))
            return out

        h1, h2 = shape(a, {k: k for k in k1}), shape(b, back)
        e1 = {(u, v): (ty, md) for u, v, ty, md in edges(a)}
        e2 = {(back[u], back[v]): (ty, md) for u, v, ty, md in edges(b)}
    t.equal({k: v[0] for k, v in e2.items()}, {k: v[0] for k, v in e1.items()}, f"edges after changing {c['what']}")
    t.equal(h2, h1, f"actions after changing {c['what']}")
    if all(1e-3 <= abs(u) <= 1e6 for u in units):
        for (u, v), (_, md) in e1.items():
            if "direct_effect" in (md or {}):
                i, j = k1.index(u), k1.index(v)
                t.check("direct_effect" in e2[u, v][1], f"no direct effect on {u} -> {v} after changing {c['what']}")
                got, want = e2[u, v][1]["direct_effect"] * units[i] / units[j], md["direct_effect"]
                t.close(got, want, f"direct effect {u} -> {v} after changing {c['what']}", rel=1e-5, abs_=1e-7)
    t.label(c["what"])
    t.label(c["algo"])
    t.nontrivial(any(h[4] for h in h1) and any(h[1] == "REMOVE_EDGE_DIRECTED" for h in h1))


# --- processes
def batches():
    return st.fixed_dictionaries({
        "seed": st.integers(0, 10**9), "count": st.integers(1, 25).map(lambda k: 26 - k),
        "hashseeds": st.lists(st.integers(0, 4000), min_size=2, max_size=2, unique=True)})


def make_jobs(seed, count):
    jobs = []
    for k in range(count):
        r = random.Random(f"{seed}/{k}")
        kind = r.choice(["discover"] * 4 + ["iid", "timeseries"])
        ks = r.sample(["alpha", "b", "x1", "x2", "Zeta", "9", "y_y"], 7)
        n = r.randint(3, 6)
        dens = r.choice([0.3, 0.5, 0.8])
        dag = [[i, j] for i, j in itertools.combinations(range(n), 2) if r.random() < dens]
        if kind == "discover":
            jobs.append({"kind": kind, "case": {
                "n": n, "dag": dag, "m": r.randint(15, 80), "seed": r.randint(0, 10**6), "kind": r.choice(["sem", "sem", "ints", "noise"]),
                "strength": r.choice([0.2, 0.5, 1.0]), "scale": [r.choice([1.0, -2.0, 1e3]) for _ in range(n)],
                "shift": [r.choice([0.0, 4.0]) for _ in range(n)], "algo": r.choice(["PC", "PCClassic", "PCStable", "ParallelPC"]),
                "thr": r.choice([0.01, 0.05, 0.2, 0.5]), "keys": ks[:n]}})
        else:
            e = [[ks[i], ks[j], w] for (i, j), w in zip(dag, itertools.cycle([0.5, -0.3, 0.8]))] or [[ks[0], ks[1], 0.5]]
            jobs.append({"kind": kind, "edges": e, "size": r.randint(2, 5), "seed": r.randint(0, 999)})
    return jobs


def processes(c, t):
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    jobs = make_jobs(c["seed"], c["count"])
    with scratch() as d:
        with open("jobs.json", "w") as f:
            json.dump(jobs, f)
        outs = []
        ps = []
        for k, s in enumerate(c["hashseeds"]):
            ps.append(subprocess.Popen(
                [sys.executable, "-W", "ignore", "-m", "vf.child", f"{d}/jobs.json", f"{d}/out{k}.json"],
                env={**os.environ, "PYTHONHASHSEED": str(s)}, cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        here = json.loads(json.dumps([_try(j) for j in jobs]))
        again = json.loads(json.dumps([_try(j) for j in jobs]))
        for p in ps:
            if p.wait() != 0:
                raise RuntimeError("child process failed")
        for k in range(len(ps)):
            outs.append(json.load(open(f"out{k}.json")))
    for k, j in enumerate(jobs):
        for r in (here[k], again[k], *[o[k] for o in outs]):
            if "error" in r:
                t.fail(f"{j}: {r['error']}")
        t.equal(again[k], here[k], f"second run in the same process of {j}")
        for s, o in zip(c["hashseeds"], outs):
            t.equal(o[k], here[k], f"run in a process with hash seed {s} of {j}")
    t.nontrivial(any(j["kind"] == "discover" and any(a[1] == "REMOVE_EDGE_DIRECTED" for a in r["actions"])
                     for j, r in zip(jobs, here)))


def _try(j):
    try:
        return job(j)
    except Exception as e:  # noqa
        return {"error": f"{type(e).__name__}: {e}"}


SUBS = [
    Gen("invariance", cases, invariance, quick=1200, thorough=12000, timeout=120),
    Gen("processes", batches, processes, quick=16, thorough=160, timeout=300),
]
