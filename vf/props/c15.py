import itertools
import json

from hypothesis import strategies as st

from vf.core import Gen, Enum, Discard
from vf import build, data, orient
from vf.build import nm

RULE = ("(1) a step with scripted results (none, one or a list of actions, no two on the same edge) over generated "
        "combinations, chunked or not, run in parallel on an in-process pool with a generated feeding / execution / "
        "delivery schedule and chunk size, plain, inside a loop or collected and applied together, against the same "
        "step run sequentially: same graph, same multiset of applied and proposed actions, every combination evaluated "
        "exactly once; (2) the correlation, marginal independence and direct-effect steps on generated data, parallel "
        "against sequential; (3) a few runs on the real process pool. Non-trivial: results arrive in another order "
        "than the combinations were produced.")
ASSUMPTIONS = ["results that do not depend on what other combinations of the same step changed (others may legitimately "
               "differ between schedules)", "the in-process pool passes tasks and results through pickle, as the real one"]
ACTIONS = ["UPDATE_EDGE", "REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED", "UPDATE_EDGE_DIRECTED", "DO_NOTHING",
           "UPDATE_EDGE_TYPE"]


@st.composite
def cases(draw):
    n = draw(st.integers(3, 5))
    pairs = list(itertools.combinations(range(n), 2))
    acts = []
    for p in pairs:
        if draw(st.integers(0, 5)) > 0:
            u, v = p if draw(st.booleans()) else p[::-1]
            acts.append([draw(st.sampled_from(ACTIONS)), u, v, draw(st.integers(0, 9))])
    acts = draw(st.permutations(acts)) if acts else []
    results, k = [], 0
    while k < len(acts):
        size = draw(st.sampled_from([0, 1, 1, 1, 2, 3]))
        if size == 0:
            results.append(None)
        else:
            results.append(acts[k:k + size])
            k += size
            if draw(st.integers(0, 4)) == 0:  # the same remark twice
                results[-1] += [["DO_NOTHING", *results[-1][0][1:]]] * draw(st.integers(1, 3))
    if draw(st.integers(0, 5)) == 0:  # many combinations, few of them with a result
        at = draw(st.integers(0, len(results)))
        results[at:at] = [None] * draw(st.integers(50, 150))
    missing = draw(st.lists(st.sampled_from(pairs), max_size=2, unique=True))
    return {"n": n, "results": results or [None], "missing": [list(p) for p in missing],
            "chunked": draw(st.booleans()), "chunk": draw(st.sampled_from([1, 2, 3, 4, 1000])),
            "pool_chunk": draw(st.sampled_from([1, 1, 2, 3, 100])), "sched": draw(st.integers(0, 10**4)),
            "lag": draw(st.integers(1, 12)), "mode": draw(st.sampled_from(["plain", "plain", "loop", "together"])),
            "single": draw(st.booleans())}


def scripted(c, parallel, t):
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy.common_pipeline_steps.logic import Loop, ApplyActionsTogether
    from causy.edge_types import DirectedEdge
    from causy.models import TestResult, TestResultAction, ComparisonSettings
    from vf import scripted as S
    from vf.pool import fake_pools

    n = c["n"]
    g = build.new_graph(n)
    for i, j in itertools.combinations(range(n), 2):
        if [i, j] not in c["missing"]:
            g.add_edge(g.nodes[nm(i)], g.nodes[nm(j)], {"start": i * 10 + j})

    def mk(a):
        return TestResult(u=g.nodes[nm(a[1])], v=g.nodes[nm(a[2])], action=TestResultAction(a[0]), data={"w": a[3]},
                          edge_type=DirectedEdge() if "TYPE" in a[0] else None)

    res = []
    for r in c["results"]:
        if r is None:
            res.append(None)
        elif len(r) == 1 and c["single"]:
            res.append(mk(r[0]))
        else:
            res.append([mk(a) for a in r])
    S.SCRIPT.clear()
    S.LOG.clear()
    S.SCRIPT[1] = {"results": res, "chunk": c["chunk"]}
    step = S.ScriptedStep(
        generator=S.ScriptGenerator(comparison_settings=ComparisonSettings(min=1, max=1), chunked=c["chunked"], every_nth=1),
        parallel=parallel, chunk_size_parallel_processing=c["pool_chunk"])
    if c["mode"] == "loop":
        # the second pass must find nothing to do: removals only
        step = Loop(pipeline_steps=[step], exit_condition=ExitOnNoActions())
    elif c["mode"] == "together":
        step = ApplyActionsTogether(pipeline_steps=[step])
    with fake_pools(seed=c["sched"], lag=c["lag"]) as pools:
        m = orient.model_with([step], g)
        m.execute_pipeline_steps()
        del m
    with t.reading("graph and history"):
        edges = {(e.u.id, e.v.id): (e.edge_type.name, dict(e.metadata)) for e in g.retrieve_edges()}
        applied, proposed = [], []
        for h in data.flat_history(g.action_history):
            applied += [(a.action.value, a.u.id, a.v.id, json.dumps(a.data)) for a in h.actions]
            proposed += [(a.action.value, a.u.id, a.v.id, json.dumps(a.data)) for a in h.all_proposed_actions]
    return {"graph": edges, "applied actions": sorted(applied), "proposed actions": sorted(proposed),
            "evaluated combinations": sorted(x[1] for x in S.LOG)}, pools


def run_scripted(c, t):
    if c["mode"] == "loop":
        for r in c["results"]:
            for a in r or []:
                if a[0] not in ("REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED"):
                    a[0] = "REMOVE_EDGE_UNDIRECTED"
    par, pools = scripted(c, True, t)
    seq, _ = scripted(c, False, t)
    for k in seq:
        t.equal(par[k], seq[k], f"{k} of the parallel run (sequential run expected)")
    t.nontrivial(any(p.reordered for p in pools))
    t.label(c["mode"])
    t.label("chunked generator", c["chunked"])
    t.label("several pool chunks", any(p.chunks_run > 1 for p in pools))
    t.label("used the pool", any(p.tasks_run for p in pools))


# --- data steps
@st.composite
def data_cases(draw):
    c = draw(data.noisy_cases(3, 5, 12, 60))
    c["step"] = draw(st.sampled_from(["pearson", "marginal", "effects", "all"]))
    c["thr"] = draw(st.sampled_from([0.01, 0.05, 0.2, 0.5]))
    c["pool_chunk"] = draw(st.sampled_from([1, 2, 5, 100]))
    c["sched"] = draw(st.integers(0, 10**4))
    c["lag"] = draw(st.integers(1, 12))
    return c


def data_run(c, x, parallel, t):
    from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from vf.pool import fake_pools

    n = c["n"]
    kw = {"parallel": parallel, "chunk_size_parallel_processing": c["pool_chunk"]}
    g = build.new_graph(n, values=[list(map(float, x[:, i])) for i in range(n)])
    if c["step"] == "effects":
        for i, j in c["dag"]:
            g.add_directed_edge(g.nodes[nm(i)], g.nodes[nm(j)], {})
        steps = [ComputeDirectEffectsInDAGsMultivariateRegression(**kw)]
    else:
        for i, j in itertools.combinations(range(n), 2):
            g.add_edge(g.nodes[nm(i)], g.nodes[nm(j)], {})
        steps = [CalculatePearsonCorrelations(**kw)]
        if c["step"] != "pearson":
            steps.append(CorrelationCoefficientTest(threshold=c["thr"], **kw))
    with fake_pools(seed=c["sched"], lag=c["lag"]) as pools:
        m = orient.model_with(steps, g)
        m.execute_pipeline_steps()
        del m
    with t.reading("graph"):
        edges = {(e.u.id, e.v.id): (e.edge_type.name, dict(e.metadata)) for e in g.retrieve_edges()}
        hist = [sorted((a.action.value, *sorted((a.u.id, a.v.id))) for a in h.actions) for h in g.action_history]
    return edges, hist, pools


def run_data(c, t):
    x = data.dataset(c)
    s = data.Stat(x)
    if any(s.constant):
        raise Discard()
    pe, ph, pools = data_run(c, x, True, t)
    se, sh, _ = data_run(c, x, False, t)
    t.equal(pe, se, "graph of the parallel run")
    t.equal(ph, sh, "applied actions of the parallel run")
    t.nontrivial(any(p.reordered for p in pools) and len(se) > 2)
    t.label(c["step"])


# --- the real pool
def real_cases(tier):
    for k in range(1 if tier == "quick" else 6):
        yield {"n": 4, "dag": [[0, 2], [1, 2], [2, 3]] if k % 2 == 0 else [[0, 1], [0, 2], [1, 3], [2, 3]], "seed": 7 + k}


def run_real(c, t):
    from causy.graph_model import graph_model_factory

    r = data.faithful_dataset(c["n"], c["dag"], c["seed"])
    x = r[0]
    alg = data.algorithm("ParallelPC")
    model = graph_model_factory(alg, {v.name: v.value for v in alg.variables})()
    model.create_graph_from_data(data.rows(x, data.names(c["n"])))
    model.create_all_possible_edges()
    model.execute_pipeline_steps()
    seq = data.discover("PC", x)

    def shape(m):
        with t.reading("graph"):
            return sorted((e.u.id, e.v.id, e.edge_type.name) for e in m.graph.retrieve_edges())

    t.equal(shape(model), shape(seq), "ParallelPC on the real pool against PC")
    t.nontrivial()
    model.pool.terminate()


SUBS = [
    Gen("scripted", cases, run_scripted, quick=5000, thorough=30000),
    Gen("data_steps", data_cases, run_data, quick=1000, thorough=6000),
    Enum("real_pool", real_cases, run_real, timeout=400),
]
