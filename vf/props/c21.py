import copy
import itertools
import json
import os
import re

from hypothesis import strategies as st

from vf.core import Gen, reset_global_state
from vf import algos, data, ws
from vf.props.c20 import subst
from vf.child import actions, edges
from vf.during import during, writes_to
from vf.pool import fake_pools
from vf.scratch import scratch

RULE = ("a history of workspace commands and edits: execute all / forced / a single experiment / clear / "
        "update-variable, interleaved with changes of data files, loader options, algorithm files and modules, "
        "variables, the pipeline or loader an experiment uses, rewriting a file without changing its meaning, "
        "replacing the data while an experiment runs, cutting off the latest result as by a crash, and unrelated files; "
        "in a quarter of the cases all runs fall into the same seconds; 1-3 experiments with confusable names. After every command the stored versions of every "
        "experiment must be those of a model that re-runs exactly when algorithm, effective variables, data or options "
        "differ from the latest stored result (or there is none, or it is forced, or the loader cannot tell), each new "
        "version must equal a direct run of the library on that data, and old ones stay as they were. Non-trivial: a "
        "run was skipped and another one repeated after a change. Collisions: another process stores results of the experiment in the same "
        "second, right before ours is written: all of them must be there afterwards.")
ASSUMPTIONS = ["valid workspaces"]
EXPS = ["exp", "exp_1", "e", "exp_12"]
PIPES = ["byname", "file_a", "file_b", "module", "parallel", "novars"]
LOADERS = ["d_json", "d_jsonl", "d_dyn", "d_unknown"]
KEYS = ["w", "x", "y", "z"]


def spec(variant):
    """algorithm definitions that differ from each other: [threshold default, steps, name, kind of choices]"""
    thr, k, name = variant
    gen = None
    one = lambda cls, **kw: dict({"cls": cls, "threshold": None, "display_name": None, "chunk": None, "parallel": False,  # noqa
                                  "sync": None, "generator": gen}, **kw)
    steps = [one("CalculatePearsonCorrelations"), one("CorrelationCoefficientTest", threshold={"$ref": "thr"})]
    if k >= 1:
        steps.append(one("PartialCorrelationTest", threshold={"$ref": "thr"}))
    if k >= 2:
        steps.append(one("ColliderTest", sync={"$ref": "flag"}))
    if k >= 3:
        steps.append(one("ComputeDirectEffectsInDAGsMultivariateRegression"))
    return {"name": name, "steps": steps, "ui": False, "none": False, "pre": None, "edge_types": ["Directed", "Undirected"],
            "variables": [{"name": "thr", "type": "float", "value": thr, "choices": None},
                          {"name": "flag", "type": "bool", "value": False, "choices": None}]}


variants = st.tuples(st.sampled_from([0.01, 0.05, 0.4]), st.integers(0, 3), st.sampled_from(["A", "B"])).map(list)
VALUES = {"thr": [0.0, 0.01, 0.05, 0.2, 0.9], "flag": [True, False], "threshold": [0.0, 0.01, 0.05, 0.2, 0.9]}


def allowed(pipe):
    return {"byname": ["threshold"], "parallel": ["threshold"], "novars": []}.get(pipe, ["thr", "flag"])


@st.composite
def var_settings(draw, pipe):
    return {k: draw(st.sampled_from(VALUES[k])) for k in allowed(pipe) if draw(st.booleans())}


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(EXPS), min_size=1, max_size=3, unique=True))
    exps = {}
    for e in names:
        p = draw(st.sampled_from(PIPES))
        exps[e] = {"pipeline": p, "dataloader": draw(st.sampled_from(LOADERS[:3] * 2 + LOADERS)), "variables": draw(var_settings(p))}
    ops = []
    cur = {e: exps[e]["pipeline"] for e in names}
    execute = st.sampled_from([["execute"], ["execute"], ["execute"], ["force"]])
    for _ in range(draw(st.integers(2, 8))):
        e = draw(st.sampled_from(names))
        k = draw(st.sampled_from(["execute", "execute", "execute", "single", "data", "data", "algo", "algo", "rewrite", "var", "var",
                                  "unset", "pipe", "loader", "options", "clear", "noise", "race", "cut"]))
        if k == "execute":
            ops.append(draw(execute))
        elif k in ("single", "clear"):
            ops.append([k, e])
            if k == "single" and draw(st.integers(0, 5)) == 0:
                ops[-1][1] = "nope"
        elif k == "data":
            ops.append([k, draw(st.sampled_from(LOADERS)), draw(st.integers(0, 5))])
        elif k == "algo":
            ops.append([k, draw(st.sampled_from(["file_a", "file_b", "module"])), draw(variants)])
        elif k == "rewrite":
            ops.append([k])
        elif k == "race":
            ops.append([k, draw(st.integers(0, 3))])
        elif k == "cut":
            ops.append([k, e, draw(st.sampled_from([0, 1, 10, 50, 99]))])
        elif k == "var":
            name = draw(st.sampled_from(allowed(cur[e]) or ["thr"]))
            ops.append([k, e, name, draw(st.sampled_from(VALUES[name])), draw(st.booleans())])
        elif k == "unset":
            ops.append([k, e, draw(st.sampled_from(allowed(cur[e]) or ["thr"]))])
        elif k == "pipe":
            p = draw(st.sampled_from(PIPES))
            cur[e] = p
            ops.append([k, e, p, draw(var_settings(p))])
        elif k == "loader":
            ops.append([k, e, draw(st.sampled_from(LOADERS))])
        elif k == "options":
            used = [d["dataloader"] for d in exps.values()]
            lo = draw(st.sampled_from(LOADERS + used * 3))
            for _ in range(draw(st.integers(1, 3))):
                ops += [[k, lo, draw(st.sampled_from([None, 1, 2, "s", "n", "b"]))], ["execute"]]
            ops.pop()
            if draw(st.integers(0, 2)) == 0:
                # the same options written in another order
                ops += [[k, lo, "b"], ["execute"], ["rewrite"], ["execute"]]
        else:
            ops.append([k, draw(st.sampled_from(["exp_data.json", "exp_.json", "exp_12a.json", "other_5.json", "exp_1_x.json", "xexp_7.json",
                                                  "exp_007.json"]))])
        # a change is of interest when something is executed after it
        if k not in ("execute", "single") and draw(st.integers(0, 2)) > 0:
            ops.append(draw(execute))
    if ops[-1][0] not in ("execute", "force"):
        ops.append(["execute"])
    return {"exps": exps, "ops": ops, "files": {p: draw(variants) for p in ("file_a", "file_b", "module")}, "seed": draw(st.integers(0, 5)),
            "null": draw(st.sampled_from([False, True, "none"])), "keep": draw(st.integers(0, 3)) == 0}


class World:
    def __init__(self, c):
        self.c = c
        self.exps = copy.deepcopy(c["exps"])
        self.files = dict(c["files"])
        self.data = {k: i % 3 for i, k in enumerate(LOADERS)}
        self.options = {k: None for k in LOADERS}
        self.indent = 1
        self.history = {e: [] for e in self.exps}  # [(number, fingerprint, expected)]
        self.noise = {}
        self.clock = 1000
        self.cache = {}

    def rows(self, loader):
        k = self.data[loader]
        if k >= 4:  # the same rows in another order
            r = self.rows_of(k - 4)
            return [r[1], r[0]] + r[2:]
        return self.rows_of(k)

    def rows_of(self, k):
        # d_json and d_jsonl hold the same rows for the same number
        x = data.dataset({"n": 3 + (k % 2), "dag": [[0, 1], [1, 2]] if k < 2 else [[0, 2], [1, 2]], "m": 25, "kind": "sem", "strength": 0.8,
                          "seed": self.c["seed"] * 7 + k, "scale": [1.0] * (3 + k % 2), "shift": [0.0] * (3 + k % 2)})
        return data.rows(x, KEYS[: 3 + (k % 2)])

    def opts(self, loader):
        o = self.options[loader]
        if o is None:
            return None
        if loader in ("d_dyn", "d_unknown"):
            return {"skip": {"s": 3, "n": 4, "b": 0}.get(o, o)}
        o = {"s": {"anything": "1"}, "n": {"anything": None}, "b": {"anything": 1, "more": None}}.get(o) or {"anything": o}
        return o if self.indent else dict(reversed(o.items()))

    def seen(self, loader):
        """rows an experiment gets"""
        skip = (self.opts(loader) or {}).get("skip", 0)
        return self.rows(loader)[skip:]

    def write(self):
        exps = {}
        for e, d in self.exps.items():
            exps[e] = dict(d)
            if not d["variables"] and self.c["null"] == "none":
                exps[e]["variables"] = None
            elif not d["variables"] and self.c["null"]:
                exps[e].pop("variables")
        ws.write_yaml({
            "name": "w", "author": "a",
            "pipelines": {"byname": {"type": "name", "reference": "PC"}, "parallel": {"type": "name", "reference": "ParallelPC"},
                          "file_a": {"type": "file", "reference": "a.json"}, "file_b": {"type": "file", "reference": "b.json"},
                          "module": {"type": "python_module", "reference": "vf_ws_mod.PIPELINE"},
                          "novars": {"type": "python_module", "reference": "vf_ws_nov.PIPELINE"}},
            "dataloaders": {"d_json": {"type": "json", "reference": "d.json", "options": self.opts("d_json")},
                            "d_jsonl": {"type": "jsonl", "reference": "d.jsonl", "options": self.opts("d_jsonl")},
                            "d_dyn": {"type": "dynamic", "reference": "vf_ws_dyn.Loader", "options": self.opts("d_dyn")},
                            "d_unknown": {"type": "dynamic", "reference": "vf_ws_unk.Loader", "options": self.opts("d_unknown")}},
            "experiments": exps})
        for p, f in (("file_a", "a.json"), ("file_b", "b.json")):
            with open(f, "w") as h:
                json.dump(algos.construct(spec(self.files[p])).model_dump(), h, indent=self.indent)
        with open("vf_ws_mod.py", "w") as h:
            h.write(ws.MOD % json.dumps(algos.construct(spec(self.files["module"])).model_dump(), indent=self.indent))
        with open("vf_ws_nov.py", "w") as h:
            h.write(ws.NOVARS % json.dumps(algos.construct(self.definition("novars")).model_dump(), indent=self.indent))
        with open("d.json", "w") as h:
            json.dump(self.rows("d_json"), h)
        with open("d.jsonl", "w") as h:
            h.write("\n".join(json.dumps(r) for r in self.rows("d_jsonl")) + "\n")
        for loader, mod, how in (("d_dyn", "vf_ws_dyn", f'hashlib.sha256(open("{mod_file("d_dyn")}", "rb").read()).hexdigest()'),
                                 ("d_unknown", "vf_ws_unk", "None")):
            with open(mod_file(loader), "w") as h:
                json.dump(self.rows(loader), h)
            with open(mod + ".py", "w") as h:
                h.write(ws.DYN % (mod_file(loader), mod_file(loader), how))
        for f, text in self.noise.items():
            with open(f, "w") as h:
                h.write(text)

    def definition(self, p):
        if p in ("byname", "parallel"):
            return {"byname": "PC", "parallel": "ParallelPC"}[p]
        if p == "novars":
            # the module's algorithm with the values written out, without variables
            d = spec(self.files["module"])
            return dict(d, steps=subst(d["steps"], {v["name"]: v["value"] for v in d["variables"]}), variables=[])
        return spec(self.files[p])

    def values(self, e):
        p = self.exps[e]["pipeline"]
        d = self.definition(p)
        out = {"threshold": 0.05 if p == "byname" else 0.01} if isinstance(d, str) else {v["name"]: v["value"] for v in d["variables"]}
        if isinstance(d, str):
            out = {v.name: v.value for v in data.algorithm(d).variables}
        out.update(self.exps[e]["variables"])
        return out

    def fingerprint(self, e):
        x = self.exps[e]
        if x["dataloader"] == "d_unknown":
            return None
        return json.dumps([self.definition(x["pipeline"]), self.values(e), self.rows(x["dataloader"]), self.opts(x["dataloader"]),
                           x["dataloader"]], sort_keys=True)

    def expected(self, e):
        from causy.graph_model import graph_model_factory

        x = self.exps[e]
        d = self.definition(x["pipeline"])
        key = json.dumps([d, self.values(e), self.seen(x["dataloader"])])
        if key not in self.cache:
            a = data.algorithm(d) if isinstance(d, str) else algos.construct(d)
            m = graph_model_factory(copy.deepcopy(a), self.values(e))()
            m.create_graph_from_data(self.seen(x["dataloader"]))
            m.create_all_possible_edges()
            m.execute_pipeline_steps()
            self.cache[key] = {"edges": sorted(edges(m), key=lambda k: k[:2]), "nodes": sorted(m.graph.nodes), "actions": actions(m)}
            if d == "ParallelPC":  # it shuffles its combinations
                self.cache[key].update(edges=None, actions=None)
        return {"run": self.cache[key], "variables": self.values(e),
                "algorithm": {"type": {"byname": "name", "parallel": "name", "module": "python_module", "novars": "python_module"}.get(x["pipeline"], "file"),
                              "reference": {"byname": "PC", "parallel": "ParallelPC", "file_a": "a.json", "file_b": "b.json",
                                            "module": "vf_ws_mod.PIPELINE", "novars": "vf_ws_nov.PIPELINE"}[x["pipeline"]]}}


def mod_file(loader):
    return loader + "_rows.json"


def stored(path):
    """what a stored result says"""
    from causy.serialization import deserialize_result

    raw = json.load(open(path))
    r = deserialize_result(json.loads(json.dumps(raw)))
    acts = []
    for h in data.flat_history(r.action_history):
        for a in h.actions:
            d = dict(a.data or {})
            if "separatedBy" in d:
                d["separatedBy"] = [k["id"] if isinstance(k, dict) else k.id for k in d["separatedBy"]]
            acts.append([h.name, a.action.value, a.u.id, a.v.id, json.loads(json.dumps(d, default=lambda o: o.id))])
    return {"edges": sorted([[e.u.id, e.v.id, e.edge_type.name, dict(e.metadata)] for e in r.edges], key=lambda k: k[:2]),
            "nodes": sorted(r.nodes), "actions": acts}, raw


def plain(x):
    """nodes inside of recorded data by id"""
    if isinstance(x, dict):
        return x["id"] if "id" in x and "name" in x else {k: plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, list) else x


def history(c, t):
    skipped = reran = False
    with scratch(), fake_pools():
        w = World(c)
        w.write()
        for op in c["ops"]:
            k = op[0]
            run, free = [], []
            if k in ("execute", "force"):
                for e in w.exps:
                    fp = w.fingerprint(e)
                    h = w.history[e]
                    need = k == "force" or not h or fp is None or h[-1][1] != fp
                    if need and k == "execute" and h and fp and h[-1][1] not in (None, "cut off") and json.loads(h[-1][1])[:-1] == json.loads(fp)[:-1]:
                        free.append(e)  # another loader of the same data: up to the hash of the loaders
                    skipped |= not need
                    reran |= need and bool(h)
                    if need:
                        run.append(e)
                args = ["workspace", "execute"] + (["--force-reexecution"] if k == "force" else [])
            elif k == "single":
                run = [op[1]] if op[1] in w.exps else []
                args = ["workspace", "execute", "--experiment-name", op[1]]
            elif k == "race":
                # the data of the dynamic loader is replaced while experiments run
                race = [e for e in w.exps if w.exps[e]["dataloader"] == "d_dyn"][:1]
                if not race:
                    continue
                run = race
                args = ["workspace", "execute", "--experiment-name", race[0]]
                was, w.data["d_dyn"] = w.data["d_dyn"], op[1]
                with open("pending.json", "w") as h:
                    json.dump(w.rows("d_dyn"), h)
                w.data["d_dyn"] = was
            elif k == "cut":
                # a crash while the latest result was written
                h = w.history[op[1]]
                if h:
                    text = h[-1][2][: len(h[-1][2]) * op[2] // 100]
                    h[-1] = (h[-1][0], "cut off", text)
                    with open(f"{op[1]}_{h[-1][0]}.json", "w") as f:
                        f.write(text)
                continue
            elif k == "clear":
                w.history[op[1]] = []
                args = ["workspace", "experiment", "clear", op[1]]
            elif k == "var" and op[2] in allowed(w.exps[op[1]]["pipeline"]):
                w.exps[op[1]]["variables"][op[2]] = op[3]
                args = ["workspace", "experiment", "update-variable", op[1], op[2], str(op[3])] if op[4] else None
            else:
                args = None
                if k == "data":
                    w.data[op[1]] = op[2]
                elif k == "algo":
                    w.files[op[1]] = op[2]
                elif k == "rewrite":
                    w.indent = None if w.indent else 1
                elif k == "unset":
                    w.exps[op[1]]["variables"].pop(op[2], None)
                elif k == "pipe":
                    w.exps[op[1]].update(pipeline=op[2], variables=dict(op[3]))
                elif k == "loader":
                    w.exps[op[1]]["dataloader"] = op[2]
                elif k == "options":
                    w.options[op[1]] = op[2]
                elif k == "noise":
                    w.noise[op[1]] = "{}"
            if args is None:
                w.write()
                continue
            reset_global_state()
            ws.cli(args)
            for e in w.exps:
                want = [n for n, _, _ in w.history[e]]
                got = ws.versions(e)
                new = [n for n in got if n not in want]
                t.equal([n for n in got if n in want], want, f"older versions of {e} after {op}")
                if e in free:
                    run = [x for x in run if x != e] + [e] * bool(new)
                t.check(bool(new) == (e in run), lambda: f"{e} was {'' if new else 'not '}executed by {op}; "
                        f"versions before: {len(want)}, same fingerprint as the latest: {bool(w.history[e]) and w.history[e][-1][1] == w.fingerprint(e)}")
                t.check(len(new) < 2, lambda: f"{len(new)} new results of {e} after {op}")
                for n in new:
                    if c.get("keep"):
                        t.check(not want or n > max(want), lambda: f"version {n} of {e} is not newer than {want}")
                        w.clock = n
                    else:
                        w.clock += 1
                        os.rename(f"{e}_{n}.json", f"{e}_{w.clock}.json")
                    with t.reading(f"stored result of {e}"):
                        got, raw = stored(f"{e}_{w.clock}.json")
                        x = w.expected(e)
                        for part in ("nodes", "edges", "actions"):
                            if x["run"][part] is not None:
                                t.equal(plain(got[part]), plain(x["run"][part]), f"{part} of the stored result of {e} after {op}")
                        t.equal(raw["variables"], x["variables"], f"variables of the stored result of {e}")
                        t.equal(raw["algorithm"], x["algorithm"], f"algorithm of the stored result of {e}")
                    w.history[e].append((w.clock, w.fingerprint(e), open(f"{e}_{w.clock}.json").read()))
                for n, _, text in w.history[e]:
                    t.equal(open(f"{e}_{n}.json").read() == text, True, f"version {n} of {e} unchanged after {op}")
            if k == "race":
                w.data["d_dyn"] = op[1]
            for f, text in w.noise.items():
                t.equal(os.path.exists(f) and open(f).read(), text, f"unrelated file {f}")
            t.label(k)
    t.nontrivial(skipped and reran)
    t.label("skipped", skipped)
    t.label("re-run after a change", reran)


@st.composite
def collision_cases(draw):
    return {"exp": draw(st.sampled_from(EXPS)), "taken": draw(st.integers(0, 3)), "before": draw(st.integers(0, 2)),
            "how": draw(st.sampled_from(["named", "all", "force"]))}


def collisions(c, t):
    """another process stores a result of the same experiment in the same second, right before ours is written"""
    e = c["exp"]
    with scratch(), fake_pools():
        w = World({"exps": {e: {"pipeline": "file_a", "dataloader": "d_unknown", "variables": {}}}, "files": {p: [0.05, 1, "A"] for p in ("file_a", "file_b", "module")},
                   "seed": 1, "null": False})
        w.write()
        args = {"named": ["--experiment-name", e], "all": [], "force": ["--force-reexecution"]}[c["how"]]
        for _ in range(c["before"]):
            reset_global_state()
            ws.cli(["workspace", "execute"] + args)
        old = {n: open(f"{e}_{n}.json").read() for n in ws.versions(e)}
        t.equal(len(old), c["before"], "stored results before the collision")
        theirs = {}

        def handler(event, a):
            name = writes_to(event, a)
            m = name and re.fullmatch(re.escape(e) + r"_(\d+)\.json", name)
            if m and len(theirs) < c["taken"] and not os.path.exists(name):
                theirs[int(m[1])] = f"result {len(theirs)} of the other process"
                with open(name, "w") as f:
                    f.write(theirs[int(m[1])])

        reset_global_state()
        with during(handler):
            ws.cli(["workspace", "execute"] + args)
        now = ws.versions(e)
        new = [n for n in now if n not in old and n not in theirs]
        for n, text in list(old.items()) + list(theirs.items()):
            t.equal(n in now and open(f"{e}_{n}.json").read(), text, f"version {n} of {e}, stored by {'another process' if n in theirs else 'an earlier run'}")
        t.equal(len(new), 1, "new results of the run")
        with t.reading("stored result"):
            got, raw = stored(f"{e}_{new[0]}.json")
            want = w.expected(e)["run"]
            for part in ("nodes", "edges", "actions"):
                t.equal(plain(got[part]), plain(want[part]), f"{part} of the stored result")
    t.nontrivial(bool(theirs))
    t.label(f"{len(theirs)} names taken")


SUBS = [
    Gen("collisions", collision_cases, collisions, quick=60, thorough=300, timeout=60),
    Gen("history", cases, history, quick=900, thorough=8000, timeout=180),
]
