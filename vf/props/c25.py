import contextlib
import copy
import datetime
import json
import os
import time

from hypothesis import strategies as st

from vf.core import Gen
from vf import algos, results, ws
from vf.during import during
from vf.pool import fake_pools
from vf.scratch import scratch

RULE = ("a workspace with 1-3 experiments (confusable names) and 0-3 stored versions each, every one a generated result, "
        "plus unrelated files, and requests to every endpoint of the UI API in any order, with a result added, removed or "
        "cut off (as by a crash) between requests: status, workspace, experiment list with versions newest first, latest and numbered results and "
        "the single loaded model must say exactly what is stored at that moment, unknown experiments, versions and "
        "reference types are refused, and algorithms are served with their definition. Non-trivial: an experiment with two "
        "versions or a result with edges and history was served. Races: a version is added or removed right before any one of the "
        "file system operations of a request; the answer must be right for the time before or after, never a mixture or a server error.")
ASSUMPTIONS = ["finite numbers"]
EXPS = ["exp", "exp_1", "e", "exp_1_2"]


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(EXPS), min_size=1, max_size=3, unique=True))
    numbers = st.lists(st.sampled_from([5, 10, 9, 1000, 1700000000, 1700000001, 2000000000]), min_size=draw(st.integers(0, 2)), max_size=3, unique=True)
    stored = {e: draw(numbers) for e in names}
    pool = [draw(results.results(2, 4)) for _ in range(draw(st.integers(1, 3)))]
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("latest"), st.sampled_from(names + ["nope", "exp"])),
        st.tuples(st.just("version"), st.sampled_from(names + ["nope"]), st.sampled_from([5, 9, 10, 1000, 1700000000, 1700000001, 2000000000, 3])),
        st.tuples(st.just("list")), st.tuples(st.just("workspace")), st.tuples(st.just("status")), st.tuples(st.just("model")),
        st.tuples(st.just("add"), st.sampled_from(names), st.sampled_from([7, 1700000002, 1000])),
        st.tuples(st.just("remove"), st.sampled_from(names)),
        st.tuples(st.just("cut"), st.sampled_from(names), st.integers(0, 9)),
        st.tuples(st.just("algorithm"), st.sampled_from(["PC", "ParallelPC", "file", "type", "unknown"]))).map(list), min_size=2, max_size=8))
    if draw(st.integers(0, 3)):
        e = draw(st.sampled_from(names))
        ops.insert(draw(st.integers(0, len(ops))), ["latest", e])
        if stored[e]:
            ops.append(["version", e, draw(st.sampled_from(stored[e]))])
    served = [e for e in names if stored[e]]
    if served and draw(st.booleans()):
        # ask, change what is stored, ask again
        e = draw(st.sampled_from(served))
        ask = [["version", e, draw(st.sampled_from(stored[e]))], ["latest", e]]
        ops += ask + [draw(st.sampled_from([["remove", e], ["add", e, ask[0][2]], ["add", e, 1700000002], ["cut", e, 4]]))] + ask
    if draw(st.integers(0, 3)) == 0:
        ops += [["algorithm", "file"], ["rewrite"], ["algorithm", "file"]]
    values = st.dictionaries(st.sampled_from(["a", "b", "c"]), st.one_of(st.booleans(), st.integers(-5, 5), st.sampled_from([0.5, 1.0, "1", "x", "true"])), max_size=3)
    return {"stored": stored, "pool": pool, "ops": ops, "noise": draw(st.booleans()), "model": draw(st.booleans()), "ws": draw(st.integers(0, 9)) > 0,
            "vars": {e: draw(values) for e in names}, "tz": draw(st.sampled_from([None, "XST-05:30", "XST+7"])), "algo": draw(algos.algorithms())}


def view(d):
    """a served or stored result as plain data"""
    def dat(x):
        if isinstance(x, dict) and "id" in x and "name" in x:
            return {"id": x["id"], "name": x["name"]}
        if isinstance(x, dict):
            return {k: dat(v) for k, v in x.items()}
        return [dat(v) for v in x] if isinstance(x, list) else x

    def act(a):
        return [a["action"], a["u"]["id"], a["u"]["name"], a["v"]["id"], a["v"]["name"], dat(a["data"]), (a.get("edge_type") or {}).get("name")]

    def step(h):
        return [h["name"], h["duration"], [act(a) for a in h["actions"]], [act(a) for a in h["all_proposed_actions"]], [step(s) for s in h["steps"]]]

    return {"algorithm": [d["algorithm"]["type"], d["algorithm"]["reference"]],
            "created_at": datetime.datetime.fromisoformat(d["created_at"]).isoformat(),
            "nodes": {k: [n["id"], n["name"]] for k, n in d["nodes"].items()},
            "edges": [[e["u"]["id"], e["u"]["name"], e["v"]["id"], e["v"]["name"], e["edge_type"]["name"], e["edge_type"]["IS_DIRECTED"],
                       e["edge_type"]["STR_REPRESENTATION"], e["metadata"]] for e in d["edges"]],
            "history": [step(h) for h in d["action_history"]], "variables": d["variables"],
            "hashes": [d["data_loader_hash"], d["algorithm_hash"], d["variables_hash"]]}


def want_view(desc):
    w = results.expected(desc)

    def dat(x):
        names = dict(zip(desc["ids"], desc["names"]))
        return None if x is None else {k: [{"id": i, "name": names[i]} for i in v] if k == "separatedBy" else v for k, v in x.items()}

    def step(h):
        return [h[0], h[1], [a[:5] + [dat(a[5]), a[6]] for a in h[2]], [a[:5] + [dat(a[5]), a[6]] for a in h[3]], [step(s) for s in h[4]]]

    w["history"] = [step(h) for h in w["history"]]
    return w


def typed(x):
    return json.dumps(x, sort_keys=True)


def api(c, t):
    from fastapi.testclient import TestClient
    from causy.models import AlgorithmReference
    from causy.serialization import CausyJSONEncoder
    from causy.ui.server import _create_ui_app, _set_model, _set_workspace
    from causy.workspaces.models import Experiment, Workspace
    from causy.data_loader import DataLoaderReference

    texts = [json.dumps(results.construct(d).model_dump(), cls=CausyJSONEncoder) for d in c["pool"]]
    wants = [want_view(d) for d in c["pool"]]
    served = False
    with scratch(), fake_pools(), time_zone(c.get("tz")):
        state = {e: {} for e in c["stored"]}
        k = 0

        def put(e, v):
            nonlocal k
            k += 1
            with open(f"{e}_{v}.json", "w") as f:
                f.write(texts[k % len(texts)])
            state[e][v] = wants[k % len(texts)]

        for e, vs in c["stored"].items():
            for v in vs:
                put(e, v)
        if c["noise"]:
            for f in ("exp_data.json", "exp_1_x.json", "e_.json", "exp_007.json"):
                with open(f, "w") as h:
                    h.write("noise")
        w = {"name": "w", "author": "me", "pipelines": {"p": {"type": "name", "reference": "PC"}},
             "dataloaders": {"d": {"type": "json", "reference": "d.json", "options": {"x": [True, 1, "1"]}}},
             "experiments": {e: {"pipeline": "p", "dataloader": "d", "variables": c["vars"][e]} for e in c["stored"]}}
        a = algos.construct(c["algo"])
        with open("algo.json", "w") as f:
            json.dump(a.model_dump(), f)
        try:
            _set_workspace(Workspace(**copy.deepcopy(w)) if c["ws"] else None)
            _set_model(json.loads(texts[0]) if c["model"] else None)
            client = TestClient(_create_ui_app(with_static=False), raise_server_exceptions=True)

            def get(path):
                return client.get("/api/v1" + path)

            for op in c["ops"]:
                if op[0] == "add":
                    put(op[1], op[2])
                    continue
                if op[0] == "rewrite":
                    a = a.model_copy(update={"name": a.name + " changed", "pipeline_steps": a.pipeline_steps[:1]})
                    with open("algo.json", "w") as f:
                        json.dump(a.model_dump(), f)
                    continue
                if op[0] == "remove":
                    if state[op[1]]:
                        v = max(state[op[1]])
                        os.remove(f"{op[1]}_{v}.json")
                        del state[op[1]][v]
                    continue
                if op[0] == "cut":
                    # the newest file as left by a crash while it was written
                    if state[op[1]]:
                        v = max(state[op[1]])
                        text = open(f"{op[1]}_{v}.json").read()
                        with open(f"{op[1]}_{v}.json", "w") as f:
                            f.write(text[:len(text) * op[2] // 10])
                        state[op[1]][v] = None
                    continue
                t.label(op[0])
                if op[0] == "status":
                    r = get("/status")
                    t.equal([r.status_code, r.json()["model_loaded"], r.json()["workspace_loaded"], r.json()["mode"]],
                            [200, c["model"], c["ws"], "workspace" if c["ws"] else "model"], "status")
                elif op[0] == "model":
                    r = get("/model")
                    if not c["model"]:
                        t.equal(r.status_code, 404, "model without a model")
                        continue
                    t.equal(r.status_code, 200, "status of /model")
                    with t.reading("/model"):
                        same(t, view(r.json()), wants[0], "/model")
                elif op[0] == "algorithm":
                    algorithm(get, op[1], a, t)
                elif not c["ws"]:
                    r = get({"list": "/experiments", "workspace": "/workspace", "latest": "/experiments/exp/latest", "version": "/experiments/exp/5"}[op[0]])
                    t.equal(r.status_code, 404, f"{op[0]} without a workspace")
                elif op[0] == "workspace":
                    r = get("/workspace")
                    t.equal(r.status_code, 200, "status of /workspace")
                    got = r.json()
                    t.equal(typed(got), typed(w), "/workspace")
                elif op[0] == "list":
                    r = get("/experiments")
                    t.equal(r.status_code, 200, "status of /experiments")
                    with t.reading("/experiments"):
                        got = [[e["name"], e["pipeline"], e["dataloader"], typed(e["variables"]), [v["version"] for v in e["versions"]],
                                [v["name"] for v in e["versions"]]] for e in r.json()]
                    want = []
                    for e in c["stored"]:
                        vs = sorted(state[e], reverse=True)
                        want.append([e, "p", "d", typed(c["vars"][e]), vs, [datetime.datetime.fromtimestamp(v).isoformat() for v in vs]])
                    t.equal(sorted(got), sorted(want), "/experiments")
                else:
                    e = op[1]
                    r = get(f"/experiments/{e}/" + ("latest" if op[0] == "latest" else str(op[2])))
                    if e not in state:
                        t.equal(r.status_code, 404, f"{op} of an unknown experiment")
                        continue
                    v = max(state[e], default=None) if op[0] == "latest" else op[2]
                    if v not in state[e]:
                        t.check(400 <= r.status_code < 500, f"{op}: status {r.status_code} although there is no such version")
                        continue
                    if state[e][v] is None:
                        t.check(400 <= r.status_code < 500, f"{op}: status {r.status_code} although the file is cut off")
                        t.label("cut off")
                        continue
                    t.equal(r.status_code, 200, f"status of {op}")
                    with t.reading(str(op)):
                        t.equal(r.json()["version"], v, f"version number served for {op}")
                        same(t, view(r.json()), state[e][v], str(op))
                    served |= len(state[e]) > 1 or bool(state[e][v]["edges"] and state[e][v]["history"])
        finally:
            _set_workspace(None)
            _set_model(None)
    t.nontrivial(served)


@contextlib.contextmanager
def time_zone(tz):
    """version names are times of day where the server runs"""
    before = os.environ.get("TZ")
    try:
        if tz:
            os.environ["TZ"] = tz
            time.tzset()
        yield
    finally:
        os.environ.pop("TZ", None)
        if before is not None:
            os.environ["TZ"] = before
        time.tzset()


def same(t, got, want, what):
    for k in want:
        t.equal(typed(got[k]), typed(want[k]), f"{k} served by {what}")


def algorithm(get, kind, a, t):
    from vf import data

    if kind == "type":
        t.check(400 <= get("/algorithm/nothing/PC").status_code < 500, "unknown reference type is served")
    elif kind == "unknown":
        t.check(400 <= get("/algorithm/name/NoSuchAlgorithm").status_code < 500, "unknown algorithm is served")
        t.check(400 <= get("/algorithm/file/nosuch.json").status_code < 500, "missing file is served")
    else:
        r = get("/algorithm/file/algo.json" if kind == "file" else f"/algorithm/name/{kind}")
        want = json.loads(json.dumps((a if kind == "file" else data.algorithm(kind)).model_dump()))
        t.equal(r.status_code, 200, f"status of algorithm {kind}")
        with t.reading("algorithm"):
            got = r.json()
            t.equal(got["name"], want["name"], "name of the algorithm")
            t.equal([s["name"] for s in got["pipeline_steps"]], [s["name"] for s in want["pipeline_steps"]], f"steps of algorithm {kind}")
            t.equal(typed([[v["name"], v["value"], v["type"]] for v in got["variables"]]),
                    typed([[v["name"], v["value"], v["type"]] for v in want["variables"]]), f"variables of algorithm {kind}")
            for g, s in zip(got["pipeline_steps"], want["pipeline_steps"]):
                for k in s:
                    t.equal(typed(g.get(k)), typed(s[k]), f"{k} of step {s['name']}")


@st.composite
def race_cases(draw):
    v = st.sampled_from([5, 9, 10, 1000, 1700000000, 1700000001])
    stored = draw(st.lists(v, min_size=0, max_size=3, unique=True))
    kinds = [["add", draw(st.sampled_from([1, 7, 2000000000]))]] + ([["remove", draw(st.sampled_from(stored))], ["clear"]] if stored else [])
    return {"pool": [draw(results.results(2, 3)) for _ in range(2)], "stored": stored, "change": draw(st.sampled_from(kinds)),
            "ask": draw(st.sampled_from(["latest", "latest", "version", "list"])), "at": draw(st.integers(0, 3)),
            "number": draw(st.sampled_from(stored + [7, 2000000000]))}


def race(c, t):
    """what is stored changes while a request is answered: the answer is right for the time before or after"""
    from fastapi.testclient import TestClient
    from causy.serialization import CausyJSONEncoder
    from causy.ui.server import _create_ui_app, _set_model, _set_workspace
    from causy.workspaces.models import Workspace

    texts = [json.dumps(results.construct(d).model_dump(), cls=CausyJSONEncoder) for d in c["pool"]]
    wants = [want_view(d) for d in c["pool"]]
    with scratch():
        before = {}
        for i, v in enumerate(c["stored"]):
            with open(f"exp_{v}.json", "w") as f:
                f.write(texts[i % 2])
            before[v] = wants[i % 2]
        after = dict(before)
        kind = c["change"][0]
        if kind == "add":
            after[c["change"][1]] = wants[1]
        elif kind == "remove":
            del after[c["change"][1]]
        else:
            after = {}
        fired = [0, False]

        def handler(event, args):
            if event == "open" and "exp_" not in str(args[0]) or event in ("os.rename", "os.link") or fired[1]:
                return
            if event in ("os.listdir", "os.scandir") and isinstance(args[0], (str, bytes)) and os.path.abspath(os.fsdecode(args[0])) != os.getcwd():
                return  # an import
            fired[0] += 1
            if fired[0] <= c["at"]:
                return
            fired[1] = True
            if kind == "add":
                with open("tmp_result", "w") as f:
                    f.write(texts[1])
                os.rename("tmp_result", f"exp_{c['change'][1]}.json")
            else:
                for v in before:
                    if v not in after:
                        os.remove(f"exp_{v}.json")

        try:
            _set_workspace(Workspace(name="w", author="me", pipelines={"p": {"type": "name", "reference": "PC"}},
                                     dataloaders={"d": {"type": "json", "reference": "d.json"}},
                                     experiments={"exp": {"pipeline": "p", "dataloader": "d"}, "other": {"pipeline": "p", "dataloader": "d"}}))
            client = TestClient(_create_ui_app(with_static=False), raise_server_exceptions=False)
            path = {"latest": "/exp/latest", "version": f"/exp/{c['number']}", "list": ""}[c["ask"]]
            with during(handler):
                r = client.get("/api/v1/experiments" + path)
        finally:
            _set_workspace(None)
            _set_model(None)
        what = f"{c['ask']} while {c['change']} happens at file operation {c['at']}"
        states = [before, after] if fired[1] else [before]
        t.check(r.status_code < 500, lambda: f"{what}: status {r.status_code}")
        if c["ask"] == "list":
            t.equal(r.status_code, 200, f"status of {what}")
            with t.reading(what):
                got = [v["version"] for e in r.json() if e["name"] == "exp" for v in e["versions"]]
            t.check(got in [sorted(s, reverse=True) for s in states], lambda: f"{what}: versions {got}")
        elif r.status_code == 200:
            with t.reading(what):
                number, got = r.json()["version"], view(r.json())
            ok = False
            for s in states:
                v = max(s, default=None) if c["ask"] == "latest" else c["number"]
                if v in s and v == number and all(typed(got[k]) == typed(s[v][k]) for k in s[v]):
                    ok = True
            t.check(ok, lambda: f"{what}: served version {number} with a result that is not the one stored under that number, or not the one asked for")
        else:
            gone = fired[1] and kind != "add"
            t.check(gone or any((not s if c["ask"] == "latest" else c["number"] not in s) for s in states),
                    lambda: f"{what}: refused with status {r.status_code} although it was there all the time")
        t.nontrivial(fired[1])
        t.label(c["ask"] + " during " + kind, fired[1])


SUBS = [
    Gen("race", race_cases, race, quick=400, thorough=4000, timeout=60),
    Gen("api", cases, api, quick=900, thorough=10000, timeout=120),
]
