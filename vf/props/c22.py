import copy
import json
import os

from hypothesis import strategies as st

from vf.core import Gen, reset_global_state
from vf import algos, data, results, ws
from vf.child import edges
from vf.pool import fake_pools
from vf.scratch import scratch
from vf.ws import DOWN, ENTER

RULE = ("(1) a workspace (pipelines, data loaders, experiments with confusable names and variables of every type) with "
        "stored results and unrelated files, and a sequence of commands (add/rm of pipelines, loaders and experiments "
        "through the prompts, clear, update-variable with valid and invalid values, info, prompts left by Ctrl-C, unknown names): after every "
        "command workspace file, result files and all other files must be as in a model; stored versions are listed "
        "newest first and loaded by number; (2) a workspace created by init and the add commands alone is executed. "
        "Non-trivial: a command changed something while other experiments had stored results (1), always (2).")
ASSUMPTIONS = ["names with letters, digits, blanks and underscores"]
EXPS = ["exp", "exp_1", "exp_1_2", "e", "xexp", "exp_12"]
NOISE = ["exp_data.json", "exp_007.json", "exp_.json", "exp_12a.json", "exp_5.json.bak", "exp_1_x.json", "notes.txt", "other_77.json", "exp_-5.json",
         "Exp_9.json", "exp-3.json", "exp_ 4.json", "exp__6.json", "exp_1_2_old_8.json", "e_3.jsonl"]

ALGO = {"name": "mine", "ui": False, "none": False, "pre": None, "edge_types": ["Directed", "Undirected"],
        "steps": [{"cls": "CalculatePearsonCorrelations", "threshold": None, "display_name": None, "chunk": None, "parallel": False,
                   "sync": None, "generator": None}],
        "variables": [{"name": "thr", "type": "float", "value": 0.05, "choices": None},
                      {"name": "few", "type": "float", "value": 0.5, "choices": [0.5, 0.25]},
                      {"name": "n", "type": "integer", "value": 3, "choices": None},
                      {"name": "flag", "type": "bool", "value": True, "choices": None},
                      {"name": "label", "type": "string", "value": "a", "choices": None},
                      {"name": "mode", "type": "string", "value": "fast", "choices": ["fast", "1e5"]}]}
DEFAULTS = {v["name"]: v["value"] for v in ALGO["variables"]}
STRINGS = ["", "a", "1e5", "yes", "No", "null", "~", "0x10", "0o7", "1_000", "12:30:00", "2024-01-01", "'q' \"d\"", "a: b # c",
           "ä", "- x", "*", "true", " lead", "line\nbreak", "1.0", "=", "<<", "tab\there"]
VALS = {"thr": [0.0, 0.05, 1.0, 1e-12, 1e22, -0.5], "few": [0.5, 0.25], "n": [0, 1, -7, 10**15], "flag": [True, False],
        "label": STRINGS, "mode": ["fast", "1e5"]}
# command line text -> value, or None if it must be refused
TEXTS = {"thr": [["0.5", 0.5], ["1", 1.0], ["1e-3", 0.001], ["-2.5", -2.5], ["abc", None], ["", None]],
         "few": [["0.25", 0.25], ["0.5", 0.5], ["0.3", None], ["x", None], ["2", None]],
         "n": [["5", 5], ["-1", -1], ["1.5", None], ["x", None], ["True", None]],
         "flag": [["True", True], ["False", False], ["true", True], ["false", False], ["maybe", None]],
         "label": [[s, s] for s in STRINGS],
         "mode": [["fast", "fast"], ["1e5", "1e5"], ["slow", None]]}


@st.composite
def cases(draw):
    pipes = draw(st.lists(st.sampled_from(["p", "p_1", "my pipe", "mine"]), min_size=1, max_size=3, unique=True))
    loaders = draw(st.lists(st.sampled_from(["d", "d_1", "data"]), min_size=1, max_size=3, unique=True))
    names = draw(st.lists(st.sampled_from(EXPS), max_size=4, unique=True))
    exps = {}
    for e in names:
        v = {k: draw(st.sampled_from(VALS[k])) for k in VALS if draw(st.integers(0, 2)) == 0} if draw(st.integers(0, 2)) else draw(st.sampled_from([None, {}]))
        exps[e] = {"pipeline": draw(st.sampled_from(pipes)), "dataloader": draw(st.sampled_from(loaders)), "variables": v}
    w = {"name": draw(st.sampled_from(STRINGS)), "author": draw(st.sampled_from(STRINGS)),
         "pipelines": {p: {"type": "file", "reference": "mine.json"} for p in pipes},
         "dataloaders": {d: {"type": draw(st.sampled_from(["json", "jsonl", "dynamic"])), "reference": draw(st.sampled_from(["d.json", "x y.json", "m.L"])),
                             "options": draw(st.sampled_from([None, {}, {"a": 1}, {"b": "1e5", "c": [True, 1.5, "yes", None]}]))} for d in loaders},
         "experiments": exps}
    stored = {e: draw(st.lists(st.sampled_from([0, 5, 9, 10, 77, 1000, 1700000000, 1700000001, 2000000000, 99999999999] + list(range(20, 30))), **draw(st.sampled_from([{"max_size": 4}, {"max_size": 4}, {"max_size": 4}, {"min_size": 11, "max_size": 15}])), unique=True))
              for e in EXPS if e in names or draw(st.integers(0, 3)) == 0}
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["rm exp", "rm pipe", "rm loader", "clear", "clear", "var", "var", "var", "info", "add exp", "add pipe", "add loader", "abort"]))
        if k == "abort":
            ops.append([k, draw(st.sampled_from(["experiment", "pipeline", "dataloader"])), draw(st.integers(0, 2)), draw(st.integers(0, 2))])
        elif k in ("rm exp", "clear"):
            ops.append([k, draw(st.sampled_from(names * 3 + EXPS + ["nope"]))])
        elif k == "rm pipe":
            ops.append([k, draw(st.sampled_from(pipes * 2 + ["nope", "p"]))])
        elif k == "rm loader":
            ops.append([k, draw(st.sampled_from(loaders * 2 + ["nope", "d"]))])
        elif k == "var":
            v = draw(st.sampled_from(sorted(TEXTS) + ["few", "mode", "unknown"]))
            text = draw(st.sampled_from(TEXTS.get(v) or [["1", None]]))
            ops.append([k, draw(st.sampled_from(names * 4 + ["nope"])), v, *text])
        elif k == "info":
            ops.append([k])
        elif k == "add exp":
            ops.append([k, draw(st.sampled_from(["New", "exp 1", "My Exp", "e"])), draw(st.integers(0, 3)), draw(st.integers(0, 3))])
        elif k == "add pipe":
            ops.append([k, draw(st.sampled_from(["PRE", "EJECT", "SKELETON"])), draw(st.integers(0, 1)), draw(st.sampled_from(["New one", "p", "zz"]))])
        else:
            ops.append([k, draw(st.sampled_from(["json", "jsonl", "dynamic"])), draw(st.sampled_from(["New data", "d", "zz"])), draw(st.sampled_from(["d.json", "sub/x.json"]))])
    return {"w": w, "stored": stored, "noise": draw(st.lists(st.sampled_from(NOISE), max_size=5, unique=True)), "ops": ops}


def slug(name):
    return name.lower().replace(" ", "_")


def norm(w):
    """a workspace as plain data, absent things written out"""
    w = json.loads(json.dumps(w))
    for e in w["experiments"].values():
        e["variables"] = e.get("variables") or {}
    for d in w["dataloaders"].values():
        d["options"] = d.get("options")
    return w


def typed(x):
    return json.dumps(x, sort_keys=True)


def check_files(t, files, what, skip=()):
    now = ws.contents()
    now.pop("workspace.yml")
    t.equal(sorted(set(now) - set(skip)), sorted(set(files) - set(skip)), f"files in the workspace after {what}")
    for f in files:
        if f not in skip:
            t.check(now[f] == files[f], f"{f} was changed by {what}")


def commands(c, t):
    from causy.workspaces import cli as W

    changed = False
    with scratch(), fake_pools():
        w = copy.deepcopy(c["w"])
        ws.write_yaml(w)
        with open("mine.json", "w") as f:
            json.dump(algos.construct(ALGO).model_dump(), f)
        for f in c["noise"]:
            with open(f, "w") as h:
                h.write("noise " + f)
        for e, vs in c["stored"].items():
            for v in vs:
                with open(f"{e}_{v}.json", "w") as h:
                    json.dump({"experiment": e, "version": v}, h)
        files = ws.contents()
        files.pop("workspace.yml")
        stored = {e: sorted(c["stored"].get(e, []), reverse=True) for e in EXPS}
        for op in c["ops"]:
            k, what = op[0], " ".join(map(str, op))
            before = copy.deepcopy(w)
            skip, keys = [], None
            if k == "rm exp":
                args = ["experiment", "rm", op[1]]
                if op[1] in w["experiments"]:
                    del w["experiments"][op[1]]
                    for v in stored.get(op[1], []):
                        files.pop(f"{op[1]}_{v}.json")
                    stored[op[1]] = []
            elif k == "clear":
                args = ["experiment", "clear", op[1]]
                if op[1] in w["experiments"]:
                    for v in stored.get(op[1], []):
                        files.pop(f"{op[1]}_{v}.json")
                    stored[op[1]] = []
            elif k == "rm pipe":
                args = ["pipeline", "rm", op[1]]
                if not any(e["pipeline"] == op[1] for e in w["experiments"].values()):
                    w["pipelines"].pop(op[1], None)
            elif k == "rm loader":
                args = ["dataloader", "rm", op[1]]
                if not any(e["dataloader"] == op[1] for e in w["experiments"].values()):
                    w["dataloaders"].pop(op[1], None)
            elif k == "var":
                _, e, name, text, value = op
                args = ["experiment", "update-variable", e, name, "--", text]
                args = ["experiment", "update-variable", "--", e, name, text]
                known = e in w["experiments"] and w["pipelines"][w["experiments"][e]["pipeline"]]["reference"] == "mine.json"
                if known and value is not None:
                    w["experiments"][e]["variables"] = w["experiments"][e].get("variables") or {}
                    w["experiments"][e]["variables"][name] = value
                elif e in w["experiments"] and not known:
                    continue
            elif k == "info":
                args = ["info"]
            elif k == "abort":
                # Ctrl-C at one of the prompts
                order = ws.read_yaml()
                if op[1] == "experiment" and not (order["pipelines"] and order["dataloaders"]):
                    continue
                parts = {"experiment": ["brand new" + ENTER, ENTER], "pipeline": [DOWN * op[3] + ENTER] + [ENTER] * (op[3] < 2),
                         "dataloader": [DOWN * op[3] + ENTER] + ["brand new" + ENTER] * (op[3] < 2)}[op[1]]
                keys = "".join(parts[:op[2]]) + "\x03" * 5
                args = [op[1], "add"]
            elif k == "add exp":
                order = ws.read_yaml()
                ps, ds = list(order["pipelines"]), list(order["dataloaders"])
                if not ps or not ds:
                    continue
                p, d = ps[op[2] % len(ps)], ds[op[3] % len(ds)]
                keys = op[1] + ENTER + DOWN * (op[2] % len(ps)) + ENTER + DOWN * (op[3] % len(ds)) + ENTER
                args = ["experiment", "add"]
                ref = w["pipelines"][p]["reference"]
                values = DEFAULTS if ref == "mine.json" else defaults(w["pipelines"][p], files)
                w["experiments"][slug(op[1])] = {"pipeline": p, "dataloader": d, "variables": dict(values)}
                stored.setdefault(slug(op[1]), [])
            elif k == "add pipe":
                n = {"PRE": 0, "EJECT": 1, "SKELETON": 2}[op[1]]
                keys = DOWN * n + ENTER + (DOWN * op[2] + ENTER if n < 2 else "") + op[3] + ENTER
                args = ["pipeline", "add"]
                s = slug(op[3])
                if op[1] == "PRE":
                    new = {"type": "name", "reference": ["PC", "ParallelPC"][op[2]]}
                elif op[1] == "EJECT":
                    new = {"type": "file", "reference": s + ".yml"}
                    skip = [s + ".yml"]
                else:
                    new = {"type": "python_module", "reference": s + ".PIPELINE"}
                    skip = [s + ".py"]
            else:
                n = {"json": 0, "jsonl": 1, "dynamic": 2}[op[1]]
                keys = DOWN * n + ENTER + op[2] + ENTER + (op[3] + ENTER if n < 2 else "")
                args = ["dataloader", "add"]
                s = slug(op[2])
                w["dataloaders"][s] = {"type": op[1], "reference": op[3] if n < 2 else s + ".DataLoader", "options": None}
                if n == 2:
                    skip = [s + ".py"]
            r = ws.cli(["workspace"] + args, keys, quiet=k == "abort")
            got = norm(ws.read_yaml())
            if k == "add pipe":
                # the entry is called by the name or by its slug
                hit = [x for x in (op[3], s) if typed(got["pipelines"].get(x)) == typed(new)]
                t.check(hit, f"{what}: no pipeline {new} in {got['pipelines']}")
                w["pipelines"][hit[0]] = new
                if op[1] != "PRE":
                    files[skip[0]] = open(skip[0], "rb").read()
                    t.label("file created")
            elif skip:
                files[skip[0]] = open(skip[0], "rb").read()
            want = norm(w)
            for part in want:
                t.equal(typed(got.get(part)), typed(want[part]), f"{part} in the workspace file after {what}")
            check_files(t, files, what)
            changed |= norm(before) != want and any(stored.values())
            # the same through the functions the commands use
            cur = W._current_workspace()
            t.equal(typed(norm(json.loads(json.dumps(cur.model_dump())))), typed(want), f"workspace as read after {what}")
            for e in w["experiments"]:
                t.equal(W._load_experiment_versions(cur, e), stored.get(e, []), f"versions of {e} after {what}")
                if stored.get(e):
                    t.equal(W._load_latest_experiment_result(cur, e), {"experiment": e, "version": stored[e][0]}, f"latest result of {e}")
                    for v in stored[e]:
                        t.equal(W._load_experiment_result(cur, e, v), {"experiment": e, "version": v}, f"version {v} of {e}")
                else:
                    t.raises(ValueError, lambda: W._load_latest_experiment_result(cur, e), f"latest result of {e} without versions")
                t.raises(ValueError, lambda: W._load_experiment_result(cur, e, 123456), f"version 123456 of {e}")
            if k == "info":
                for x in [*w["pipelines"], *w["dataloaders"], *w["experiments"]]:
                    t.check(x in r.output, f"info does not mention {x}")
            t.label(k)
    t.nontrivial(changed)


def defaults(ref, files):
    from causy.causal_discovery import AVAILABLE_ALGORITHMS

    if ref["type"] == "python_module":
        return {}
    name = ref["reference"]
    if ref["type"] == "file":
        name = "ParallelPC" if b"ParallelPC" in files[name] else "PC"
    return {"PC": {"threshold": 0.05}, "ParallelPC": {"threshold": 0.05, "every_nth_sample": 200}}[name] if name in AVAILABLE_ALGORITHMS else {}


# --- everything through the prompts
@st.composite
def flow_cases(draw):
    name = st.sampled_from(["My Pipe", "one", "a 2", "Zz"])
    return {"pipe": draw(st.sampled_from(["PRE", "EJECT", "SKELETON"])), "algo": draw(st.integers(0, 1)),
            "loader": draw(st.sampled_from(["json", "jsonl", "dynamic"])), "pname": draw(name), "dname": draw(st.sampled_from(["Data", "the data"])),
            "ename": draw(st.sampled_from(["Exp", "exp 1"])), "init": draw(st.sampled_from(["all", "pipe", "none"])),
            "seed": draw(st.integers(0, 50)), "null_author": draw(st.booleans())}


def flow(c, t):
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference
    from causy.workspaces import cli as W

    n = {"PRE": 0, "EJECT": 1, "SKELETON": 2}[c["pipe"]]
    pipe = DOWN * n + ENTER + (DOWN * c["algo"] + ENTER if n < 2 else "") + c["pname"] + ENTER
    m = {"json": 0, "jsonl": 1, "dynamic": 2}[c["loader"]]
    path = "rows." + c["loader"]
    load_init = DOWN * m + ENTER + (path + ENTER if m < 2 else "") + c["dname"] + ENTER
    load_add = DOWN * m + ENTER + c["dname"] + ENTER + (path + ENTER if m < 2 else "")
    exp = c["ename"] + ENTER + ENTER + ENTER
    x = data.dataset({"n": 4, "dag": [[0, 1], [1, 2], [2, 3]], "m": 30, "kind": "sem", "strength": 0.8, "seed": c["seed"],
                      "scale": [1.0] * 4, "shift": [0.0] * 4})
    rows = data.rows(x, ["c", "a", "d", "b"])
    with scratch(), fake_pools():
        with open(path, "w") as f:
            f.write(json.dumps(rows) if c["loader"] == "json" else "\n".join(map(json.dumps, rows)) + "\n")
        if c["init"] == "all":
            ws.cli(["workspace", "init"], pipe + load_init + exp, stdin="ws name\nme\ny\ny\ny\n")
        elif c["init"] == "pipe":
            ws.cli(["workspace", "init"], pipe, stdin="ws name\nme\ny\nn\n")
            ws.cli(["workspace", "dataloader", "add"], load_add)
            ws.cli(["workspace", "experiment", "add"], exp)
        else:
            ws.cli(["workspace", "init"], "", stdin="ws name\nme\nn\nn\n")
            t.equal(norm(ws.read_yaml()), {"name": "ws name", "author": "me", "pipelines": {}, "dataloaders": {}, "experiments": {}}, "new workspace")
            ws.cli(["workspace", "pipeline", "add"], pipe)
            ws.cli(["workspace", "dataloader", "add"], load_add)
            ws.cli(["workspace", "experiment", "add"], exp)
        w = norm(ws.read_yaml())
        t.equal([w["name"], w["author"]], ["ws name", "me"], "name and author")
        e = slug(c["ename"])
        t.equal(list(w["experiments"]), [e], "experiments")
        (pkey,), (dkey,) = w["pipelines"], w["dataloaders"]
        t.equal([w["experiments"][e]["pipeline"], w["experiments"][e]["dataloader"]], [pkey, dkey], "parts of the experiment")
        if c["loader"] == "dynamic" and n < 2:
            # the skeleton yields a single row: fill it in, as a user would
            text = open(slug(c["dname"]) + ".py").read()
            with open(slug(c["dname"]) + ".py", "w") as f:
                f.write(text.replace("        yield {\n", f"        yield from {rows!r}\n        return\n        yield {{\n"))
        reset_global_state()
        ws.cli(["workspace", "execute"])
        t.equal(len(ws.versions(e)), 1, "stored results after execute")
        ws.fresh()
        from vf.props.c21 import stored

        with t.reading("stored result"):
            got, raw = stored(f"{e}_{ws.versions(e)[0]}.json")
        if n < 2:
            a = data.algorithm(["PC", "ParallelPC"][c["algo"]])
            want = norm_algo(a)
            cur = W._current_workspace()
            t.equal(norm_algo(load_algorithm_by_reference(cur.pipelines[pkey].type, cur.pipelines[pkey].reference)), want, "algorithm of the new pipeline")
        if c["loader"] == "dynamic" and n == 2:
            t.equal(got["nodes"], ["column1", "column2"], "nodes of the data loader skeleton")
        else:
            t.equal(got["nodes"], ["a", "b", "c", "d"], "nodes")
            if n < 2 and c["algo"] == 0:  # ParallelPC shuffles its combinations
                mdl = graph_model_factory(a)()
                mdl.create_graph_from_data(rows)
                mdl.create_all_possible_edges()
                mdl.execute_pipeline_steps()
                t.equal(got["edges"], sorted(edges(mdl), key=lambda k: k[:2]), "edges of the stored result")
        before = ws.versions(e)
        if c["loader"] != "dynamic":
            r = ws.cli(["workspace", "execute"])
            t.equal(ws.versions(e), before, "results after a second execute without any change")
    t.nontrivial()
    t.label(c["pipe"])
    t.label("loader " + c["loader"])


# --- init, also where a workspace exists
@st.composite
def init_cases(draw):
    text = st.sampled_from([x for x in STRINGS if x.strip() and "\n" not in x] + ["my work", "007", "1.10", "on"])
    return {"exists": draw(st.integers(0, 2)) > 0, "answer": draw(st.sampled_from(["y", "y", "y", "n", "", "N", None])), "name": draw(text),
            "author": draw(text), "pipe": draw(st.sampled_from([None, 0, 1])), "pname": draw(st.sampled_from(["My Pipe", "p", "1e5", "007", "null"])),
            "loader": draw(st.sampled_from([None, "json", "jsonl", "dynamic"])), "dname": draw(st.sampled_from(["Data", "1e5", "no", "d 2"])),
            "path": draw(st.sampled_from(["d.json", "rows.jsonl", "x.txt", "sub/d.json", "1e5", "l"])),
            "exp": draw(st.booleans()), "ename": draw(st.sampled_from(["Exp 1", "1e5", "y", "e"])),
            "abort": draw(st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6, 7]))}


def init(c, t):
    with scratch():
        old = {"name": "old", "author": "o", "pipelines": {"p": {"type": "name", "reference": "PC"}},
               "dataloaders": {"d": {"type": "json", "reference": "d.json", "options": None}},
               "experiments": {"e": {"pipeline": "p", "dataloader": "d", "variables": {"threshold": 0.5}}}}
        for f in ("e_5.json", "notes.txt", "p.yml"):
            with open(f, "w") as h:
                h.write(f)
        if c["exists"]:
            ws.write_yaml(old)
        files = ws.contents()
        said = f"{c['answer']}\n" if c["exists"] and c["answer"] is not None else ""
        refused = c["exists"] and c["answer"] != "y"
        keys = []
        want = {"name": c["name"], "author": c["author"], "pipelines": {}, "dataloaders": {}, "experiments": {}}
        said += f"{c['name']}\n{c['author']}\n" + ("n\n" if c["pipe"] is None else "y\n") + ("n\n" if c["loader"] is None else "y\n")
        if c["pipe"] is not None:
            keys += [ENTER, DOWN * c["pipe"] + ENTER, c["pname"] + ENTER]
            want["pipelines"][slug(c["pname"])] = {"type": "name", "reference": ["PC", "ParallelPC"][c["pipe"]]}
        if c["loader"] is not None:
            m = ["json", "jsonl", "dynamic"].index(c["loader"])
            keys += [DOWN * m + ENTER] + ([c["path"] + ENTER] if m < 2 else []) + [c["dname"] + ENTER]
            want["dataloaders"][slug(c["dname"])] = {"type": c["loader"], "reference": c["path"] if m < 2 else slug(c["dname"]) + ".DataLoader", "options": None}
        if c["pipe"] is not None and c["loader"] is not None:
            said += "y\n" if c["exp"] else "n\n"
            if c["exp"]:
                keys += [c["ename"] + ENTER, ENTER, ENTER]
                want["experiments"][slug(c["ename"])] = {"pipeline": slug(c["pname"]), "dataloader": slug(c["dname"]),
                                                         "variables": {"threshold": 0.05} if c["pipe"] == 0 else {"threshold": 0.05, "every_nth_sample": 200}}
        aborted = c["abort"] is not None and c["abort"] < len(keys) and not refused
        if aborted:
            keys = keys[:c["abort"]] + ["\x03" * 9]
        if refused and c["answer"] is None:
            said = ""
        ws.cli(["workspace", "init"], "".join(keys), stdin=said, quiet=refused or aborted)
        now = ws.contents()
        what = f"init, {'existing' if c['exists'] else 'no'} workspace, answer {c['answer']!r}, left at prompt {c['abort'] if aborted else None}"
        made = slug(c["dname"]) + ".py"
        if c["loader"] == "dynamic" and not refused:
            t.check(aborted or made in now, f"no {made} after {what}")
            now.pop(made, None)
        new = now.pop("workspace.yml", None)
        was = files.pop("workspace.yml", None)
        t.equal(now, files, f"other files after {what}")
        if refused or aborted:
            t.check(new == was, f"workspace file changed by {what}: {str(new)[:300]}")
            t.label("refused" if refused else "left by Ctrl-C")
        else:
            t.check(new is not None, f"no workspace file after {what}")
            t.equal(typed(norm(ws.read_yaml())), typed(want), f"workspace after {what}")
            from causy.workspaces import cli as W

            t.equal(typed(norm(json.loads(json.dumps(W._current_workspace().model_dump())))), typed(want), f"workspace as read after {what}")
            t.label("replaced" if c["exists"] else "new")
    t.nontrivial(c["exists"] or len(keys) > 2)


def norm_algo(a):
    d = json.loads(json.dumps(a.model_dump()))
    for k in ("extensions", "variables"):
        d[k] = d[k] or []
    return d


SUBS = [
    Gen("commands", cases, commands, quick=500, thorough=6000, timeout=180),
    Gen("init", init_cases, init, quick=400, thorough=3000, timeout=120),
    Gen("flow", flow_cases, flow, quick=80, thorough=600, timeout=180),
]
