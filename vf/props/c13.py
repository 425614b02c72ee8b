import copy

from hypothesis import strategies as st

from vf.core import Gen, Discard
from vf import build, graphops
from vf.build import nm

RULE = ("a graph on 2-4 nodes and a pipeline of 1-4 steps that return generated actions (single, lists, none), run as "
        "a batch, synchronously, in chunks, inside a loop or collected and applied together, with graph update hooks; "
        "after every run the graph, the executed and proposed actions per step, the per-edge history, what each step "
        "saw of the graph and of unapplied results, and every hook call are compared with a reference interpreter. "
        "Non-trivial: at least two actions applied and at least one action that must be skipped. Sub-check "
        "pure: a shipped step applied to a node combination must leave edges, values and history alone.")
ASSUMPTIONS = ["restoring an edge that was never removed is outside the domain", "loops get actions that can only be "
               "applied once, or another script for every pass"]
REMOVE = ["REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED"]
ACTIONS = REMOVE * 2 + ["UPDATE_EDGE", "UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED",
                        "RESTORE_EDGE", "RESTORE_EDGE_DIRECTED", "DO_NOTHING"]
TYPES = ["DIRECTED", "UNDIRECTED", "RECORDING"]
METAS = st.builds(lambda w, k: dict({"w": w}, **k), st.integers(0, 9), st.sampled_from([{}, {}, {"k": 1}, {"x7": 0, "k": 2}]))


def data_of(r):
    """the data of an action: some carry a key of their own, so that replaced and merged values differ"""
    return dict({"w": r[4], "drop": r[5]}, **({f"x{r[4]}": 1} if r[4] > 5 else {}))


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    arcs = [[i, j, draw(st.sampled_from(TYPES)), draw(METAS)]
            for i in range(n) for j in range(n) if i != j and draw(st.integers(0, 4)) > 0]
    nodes = st.integers(0, n - 1)

    def result(acts):
        return st.tuples(st.sampled_from(acts), nodes, nodes, st.sampled_from(TYPES), st.integers(0, 9),
                         st.integers(0, 9).map(lambda k: k == 0)).filter(lambda r: r[1] != r[2]).map(list)

    steps = []
    for _ in range(draw(st.integers(1, 4))):
        mode = draw(st.sampled_from(["batch", "batch", "sync", "chunk", "together", "loop", "unapplied"]))
        limit = draw(st.sampled_from([99, 99, 99, 2, 1, 0, 12]))
        acts = REMOVE + ["DO_NOTHING"] if mode == "loop" and limit == 99 else ACTIONS
        item = st.one_of(st.none(), result(acts).map(lambda r: ["one", r]),
                         st.lists(result(acts), max_size=3).map(lambda l: ["list", l]))
        subs = [draw(st.lists(item, min_size=1, max_size=5)) for _ in range(
            draw(st.integers(1, 2)) if mode in ("loop", "together") else 1)]
        later = None
        if mode == "loop" and draw(st.booleans()):
            item = st.one_of(st.none(), result(ACTIONS).map(lambda r: ["one", r]),
                             st.lists(result(ACTIONS), max_size=2).map(lambda l: ["list", l]))
            subs = [draw(st.lists(item, min_size=1, max_size=3)) for _ in range(draw(st.integers(1, 4)))]
            later = [[draw(st.lists(item, min_size=1, max_size=3)) for _ in subs] for _ in range(draw(st.integers(1, 4)))]
        steps.append({"mode": mode, "items": subs, "later": later, "chunk": draw(st.integers(1, 3)),
                      "inner": draw(st.sampled_from(["batch", "sync", "unapplied", "chunk"])), "limit": limit})
    pre = draw(st.sampled_from([[], [], ["DropMarked"], ["DropMarked", "Reverse"]]))
    return {"n": n, "arcs": arcs, "steps": steps, "pre": pre, "post": draw(st.booleans()), "raise": draw(st.sampled_from([None, None, None, "pre_", "post_", "hook"]))}


class Interp:
    """what the executor must do"""

    def __init__(self, n, arcs, pre, post):
        self.g = graphops.Ref(range(n))
        for i, j, ty, meta in arcs:
            self.g.e[(i, j)] = [meta, ty, False]
        self.pre, self.post = pre, post
        self.history = []      # (step name, taken, proposed)
        self.edge_history = {}
        self.hooks, self.posts, self.seen, self.exits = [], [], [], []
        self.skipped = self.applied = 0

    def live(self):
        return frozenset((nm(i), nm(j), x[1], tuple(sorted(x[0].items())))
                         for (i, j), x in self.g.e.items() if self.g.live(i, j))

    def filter(self, items):
        for h in self.pre:
            items = [r for r in items if not r[5]] if h == "DropMarked" else items[::-1]
        return items

    def hook(self, name, u, v):
        if (u, v) in self.g.e and self.g.e[(u, v)][1] == "RECORDING":
            self.hooks.append((name, nm(u), nm(v), "RECORDING", self.live()))

    def one(self, r):
        """apply one action; True if it took effect"""
        act, u, v, ty, w, _ = r
        g = self.g
        both, uv, vu = g.live(u, v) and g.live(v, u), g.live(u, v), g.live(v, u)
        hist = [(u, v)]
        if act == "DO_NOTHING":
            return False
        ok = {"REMOVE_EDGE_UNDIRECTED": both, "UPDATE_EDGE": both, "UPDATE_EDGE_TYPE": both,
              "REMOVE_EDGE_DIRECTED": uv, "UPDATE_EDGE_DIRECTED": uv, "UPDATE_EDGE_TYPE_DIRECTED": uv,
              "RESTORE_EDGE": not uv and not vu, "RESTORE_EDGE_DIRECTED": not uv}[act]
        if not ok:
            self.skipped += 1
            return False
        if act.startswith("REMOVE"):
            self.hook("pre_edge_remove_hook", u, v)
            if act == "REMOVE_EDGE_UNDIRECTED":
                g.apply(["remove_edge", u, v, True])
                hist.append((v, u))
            else:
                g.apply(["remove_directed_edge", u, v, True])
                if vu:
                    g.e[(v, u)][1] = "DIRECTED"
            self.hook("post_edge_remove_hook", u, v)
        elif act.startswith("UPDATE_EDGE_TYPE"):
            self.hook("pre_edge_type_change_hook", u, v)
            for p in [(u, v)] + ([(v, u)] if act == "UPDATE_EDGE_TYPE" else []):
                g.e[p][1] = ty
            if act == "UPDATE_EDGE_TYPE":
                hist.append((v, u))
            self.hook("post_edge_type_change_hook", u, v)
        elif act.startswith("UPDATE"):
            self.hook("pre_edge_update_hook", u, v)
            for p in [(u, v)] + ([(v, u)] if act == "UPDATE_EDGE" else []):
                g.e[p][0] = data_of(r)
            if act == "UPDATE_EDGE":
                hist.append((v, u))
            self.hook("post_edge_update_hook", u, v)
        else:
            if g.apply([act.lower().replace("restore_edge_directed", "restore_directed_edge"), u, v]) == "reject":
                raise Discard("restore of an edge that was never removed")
            if act == "RESTORE_EDGE":
                hist.append((v, u))
        for p in hist:
            self.edge_history.setdefault(p, []).append(r)
        self.applied += 1
        return True

    def take(self, results, dry=False):
        taken, proposed = [], []
        for item in results:
            if item is None:
                continue
            items = self.filter([item[1]] if item[0] == "one" else item[1])
            proposed += items
            if dry:
                taken += items
                continue
            t = [r for r in items if self.one(r)]
            taken += t
            if self.post:
                self.posts.append((t, self.live()))
        return taken, proposed

    def step(self, items, mode, chunk, dry=False):
        taken, proposed = [], []
        unapplied = mode == "unapplied"
        groups = {"batch": [items], "unapplied": [items], "sync": [[i] for i in items],
                  "chunk": [items[i:i + chunk] for i in range(0, len(items), chunk)]}[mode]
        k = 0
        for gr in groups:
            for pos, i in enumerate(gr):
                self.seen.append((k, self.live(), gr[:pos] if unapplied else None))
                k += 1
            a, b = self.take(gr, dry)
            taken += a
            proposed += b
        return taken, proposed

    def run(self, steps):
        for s in steps:
            m = s["mode"]
            if m in ("batch", "sync", "chunk", "unapplied"):
                r = self.step(s["items"][0], m, s["chunk"])
                self.history.append(("step", [r]))
            elif m == "loop":
                subs, rs, k = [], [], 0
                while True:
                    last = [r for a, _ in rs for r in a]
                    self.exits.append((k, last, self.live()))
                    if k >= s.get("limit", 99) or (k and not last):
                        break
                    its = s["items"] if not k or not s.get("later") else s["later"][k - 1] if k <= len(
                        s["later"]) else [[None] * len(it) for it in s["later"][-1]]
                    rs = [self.step(it, s["inner"], s["chunk"]) for it in its]
                    subs += rs
                    k += 1
                self.history.append(("loop", subs))
            else:
                subs = [self.step(it, s["inner"], s["chunk"], dry=True) for it in s["items"]]
                todo = [["one", r] for a, _ in subs for r in a]
                post, self.post = self.post, False
                self.take(todo)
                self.post = post
                self.history.append(("together", subs))
            self.g.apply(["purge"])


def execute(c):
    """run the scripted pipeline on causy"""
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm, TestResult, TestResultAction
    from vf import scripted

    n = c["n"]
    scripted.SCRIPT.clear()
    for l in (scripted.LOG, scripted.HOOKS, scripted.POST, scripted.EXITS):
        l.clear()
    scripted.RAISE[:] = [c["raise"]] if c.get("raise") else []
    g = build.new_graph(n)
    ty = {"DIRECTED": DirectedEdge, "UNDIRECTED": UndirectedEdge, "RECORDING": scripted.RecordingEdge}
    for i, j, k, meta in c["arcs"]:
        g.add_directed_edge(g.nodes[nm(i)], g.nodes[nm(j)], dict(meta), edge_type=ty[k]())

    made = {}  # id(TestResult) -> case result

    def result(r):
        kw = {}
        if r[0].startswith("UPDATE_EDGE_TYPE"):
            kw["edge_type"] = ty[r[3]]()
        x = TestResult(u=g.nodes[nm(r[1])], v=g.nodes[nm(r[2])], action=TestResultAction[r[0]],
                       data=data_of(r), **kw)
        made[id(x)] = (x, r)
        return x

    def item(i):
        return None if i is None else result(i[1]) if i[0] == "one" else [result(r) for r in i[1]]

    keys = iter(range(1, 1000))

    def step(items, mode, chunk, later=None):
        k = next(keys)
        scripted.SCRIPT[k] = {"results": [item(i) for i in items], "chunk": chunk}
        if later:
            scripted.SCRIPT[k]["passes"] = [[item(i) for i in l] for l in [items] + later]
        s = scripted.ScriptedStep(
            generator=scripted.ScriptGenerator(every_nth=k, chunked=mode == "chunk"), parallel=False,
            apply_synchronous=mode == "sync")
        s.needs_unapplied_actions = mode == "unapplied"
        return s

    pipeline = []
    for s in c["steps"]:
        if s["mode"] == "loop":
            pipeline.append(Loop(pipeline_steps=[
                step(i, s["inner"], s["chunk"], [l[q] for l in s.get("later") or []]) for q, i in enumerate(s["items"])],
                                 exit_condition=scripted.ExitAfter(limit=s["limit"]) if "limit" in s and s["limit"] != 99
                                 or s["chunk"] == 1 else ExitOnNoActions()))
        elif s["mode"] == "together":
            pipeline.append(ApplyActionsTogether(pipeline_steps=[step(i, s["inner"], s["chunk"]) for i in s["items"]]))
        else:
            pipeline.append(step(s["items"][0], s["mode"], s["chunk"]))
    model = graph_model_factory(Algorithm(
        name="scripted", pipeline_steps=pipeline, edge_types=[DirectedEdge(), UndirectedEdge()],
        pre_graph_update_hooks=[getattr(scripted, h)() for h in c["pre"]],
        post_graph_update_hooks=[scripted.Record()] if c["post"] else None))()
    model.graph = g
    returned = model.execute_pipeline_steps()

    return model, g, pipeline, returned, made


def evaluate(c, t):
    from causy.models import TestResultAction
    from vf import scripted

    n = c["n"]
    together = any(s["mode"] == "together" for s in c["steps"])
    if together:
        c = dict(c, post=False, pre=[p for p in c["pre"] if p != "Reverse"])
    ref = Interp(n, copy.deepcopy(c["arcs"]), c["pre"], c["post"])
    ref.run(c["steps"])
    model, g, pipeline, returned, made = execute(c)

    def back(results, what):
        out = []
        with t.reading(what):
            for x in results:
                if id(x) in made:
                    out.append(made[id(x)][1])
                else:  # copied: compare by content
                    out.append([x.action.value, build_index(x.u.id), build_index(x.v.id),
                                x.edge_type.name if getattr(x, "edge_type", None) else None, x.data["w"], x.data["drop"]])
        return [r if r[0].startswith("UPDATE_EDGE_TYPE") else r[:3] + [None] + r[4:] for r in out]

    def norm(rs):
        return [r if r[0].startswith("UPDATE_EDGE_TYPE") else r[:3] + [None] + r[4:] for r in rs]

    # graph
    with t.reading("graph"):
        got = {(e.u.id, e.v.id): (e.metadata, e.edge_type.name) for e in g.retrieve_edges()}
    want = {(nm(i), nm(j)): (x[0], x[1]) for (i, j), x in ref.g.e.items()}
    t.equal(got, want, "edges after the run")
    for i in range(n):
        for j in range(n):
            if i != j:
                t.check(not g.directed_edge_is_soft_deleted(nm(i), nm(j)), "a soft-deleted edge survived the step")
    # history
    with t.reading("action history"):
        hist = model.graph.action_history
        t.equal(len(hist), len(ref.history), "number of recorded steps")
        t.equal(len(returned), len(hist), "number of returned steps")
        for k, (h, (kind, subs)) in enumerate(zip(hist, ref.history)):
            t.equal(h.name, pipeline[k].name, f"name of recorded step {k}")
            leaves = [h] if kind == "step" else h.steps
            t.equal(len(leaves), len(subs), f"recorded sub-steps of step {k}")
            for q, (leaf, (taken, proposed)) in enumerate(zip(leaves, subs)):
                t.equal(back(leaf.all_proposed_actions, "actions"), norm(proposed), f"proposed actions of step {k}.{q}")
                if kind != "together":
                    t.equal(back(leaf.actions, "actions"), norm(taken), f"executed actions of step {k}.{q}")
    # per-edge history
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            u, v = g.nodes[nm(i)], g.nodes[nm(j)]
            all_ = ref.edge_history.get((i, j), [])
            t.equal(back(g.retrieve_edge_history(u, v), "edge history"), norm(all_), f"history of {nm(i)}->{nm(j)}")
            for a in sorted({r[0] for r in all_} | {"REMOVE_EDGE_UNDIRECTED"}):
                t.equal(back(g.retrieve_edge_history(u, v, TestResultAction[a]), "edge history"),
                        norm([r for r in all_ if r[0] == a]), f"{a} history of {nm(i)}->{nm(j)}")
    # what the steps saw
    got = [(k, l) for _, k, l, _ in scripted.LOG]
    t.equal(got, [(k, l) for k, l, _ in ref.seen], "graph seen by the steps (combination, live edges)")
    for (_, k, _, un), (_, _, want_un) in zip(scripted.LOG, ref.seen):
        if want_un is not None:
            t.check(un is not None, "step did not get the unapplied results it asked for")
            t.equal([x is None for x in un], [x is None for x in want_un], f"unapplied results given to combination {k}")
    loops = [s for s in c["steps"] if s["mode"] == "loop"]
    if loops and all(s.get("limit", 99) != 99 or s["chunk"] == 1 for s in loops):
        t.equal([(k, back(a or [], "actions of the last pass"), l) for k, a, l in scripted.EXITS],
                [(k, norm(a), l) for k, a, l in ref.exits], "what the exit condition saw (finished passes, last actions, live edges)")
        t.label("exit condition observed")
    t.equal(scripted.HOOKS, ref.hooks, "edge type hooks (hook, u, v, type, live edges)")
    if c["post"]:
        t.equal([(back(a, "post hook"), l) for a, l in scripted.POST], [(norm(a), l) for a, l in ref.posts],
                "post update hook calls")
    t.nontrivial(ref.applied >= 2 and ref.skipped >= 1)
    t.label("hooks ran", bool(ref.hooks))
    t.label("loop of four passes or more", any(k >= 4 for k, _, _ in ref.exits))
    for s in c["steps"]:
        t.label(s["mode"])


def build_index(k):
    return "abcdefghij".index(k)


# --- shipped steps only propose
@st.composite
def pure_cases(draw):
    c = draw(build.dags(2, 5))
    c["undirected"] = draw(st.lists(st.sampled_from(c["dag"]), unique_by=tuple)) if c["dag"] else []
    c["step"] = draw(st.sampled_from(PURE))
    c["nodes"] = draw(st.permutations(range(c["n"])))[:draw(st.integers(2, 5))]
    c["seed"] = draw(st.integers(0, 999))
    return c


PURE = ["CorrelationCoefficientTest", "PartialCorrelationTest", "ExtendedPartialCorrelationTestMatrix",
        "ExtendedPartialCorrelationTestLinearRegression", "ColliderTest", "NonColliderTest", "FurtherOrientTripleTest",
        "OrientQuadrupleTest", "FurtherOrientQuadrupleTest", "ComputeDirectEffectsInDAGsMultivariateRegression"]


def pure(c, t):
    """processing a combination changes nothing: a change of the graph is the executor's"""
    import numpy as np

    from causy.causal_discovery.constraint.independence_tests import common as T
    from causy.causal_discovery.constraint.orientation_rules import pc as O
    from causy.causal_effect_estimation import multivariate_regression as M
    from causy.common_pipeline_steps import calculation as C

    n = c["n"]
    rng = np.random.RandomState(c["seed"])
    g = build.new_graph(n, values=[list(map(float, rng.standard_normal(20))) for _ in range(n)])
    und = {tuple(a) for a in c["undirected"]}
    for i, j in c["dag"]:
        meta = {"correlation": float(rng.uniform(-0.4, 0.4))}
        if (i, j) in und:
            g.add_edge(g.nodes[nm(i)], g.nodes[nm(j)], meta)
        else:
            g.add_directed_edge(g.nodes[nm(i)], g.nodes[nm(j)], meta)
    cls = next(getattr(m, c["step"]) for m in (T, O, M, C) if hasattr(m, c["step"]))
    step = cls(threshold=0.05)
    nodes = c["nodes"]
    if c["step"] in ("ExtendedPartialCorrelationTestMatrix", "ExtendedPartialCorrelationTestLinearRegression"):
        need = len(nodes) if len(nodes) > 2 else 99
        if c["step"].endswith("Matrix") and tuple(nodes[:2]) not in und and tuple(nodes[1::-1]) not in und:
            raise Discard()
    else:
        need = {"PartialCorrelationTest": 3}.get(c["step"], 2)
    if len(nodes) < need:
        raise Discard()
    nodes = nodes[:need]
    pair = tuple(nodes[:2])
    if c["step"].endswith("Test") and c["step"].startswith("Correlation") and pair not in und and pair[::-1] not in und:
        raise Discard()  # known finding F1
    if c["step"].startswith("Compute") and list(pair) not in c["dag"]:
        raise Discard()
    if c["step"].endswith("Regression") and c["step"].startswith("Ext") and not g.directed_edge_exists(
            g.nodes[nm(nodes[0])], g.nodes[nm(nodes[1])]):
        raise Discard()

    def view():
        return [(e.u.id, e.v.id, e.edge_type.name, copy.deepcopy(e.metadata), e.deleted) for e in g.retrieve_edges()]

    before, hist = view(), copy.deepcopy(g.edge_history)
    r = step([nm(k) for k in nodes], g.graph, *([[]] if step.needs_unapplied_actions else []))
    with t.reading("graph"):
        t.equal(view(), before, f"edges after processing {[nm(k) for k in nodes]} with {c['step']}")
        t.check(dict(g.edge_history) == dict(hist), "the step changed the history")
    t.nontrivial(bool(r))
    t.label(c["step"])
    t.label("proposal by " + c["step"], bool(r))


SUBS = [Gen("executor", cases, evaluate, quick=8000, thorough=40000),
        Gen("pure", pure_cases, pure, quick=3000, thorough=10000)]
