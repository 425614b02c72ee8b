import copy
import itertools
import json

from hypothesis import strategies as st

from vf.core import Gen, Discard
from vf import algos, data
from vf.child import actions, edges
from vf.scratch import scratch

RULE = ("a generated algorithm (1-9 steps of the shipped kinds with any settings, generators, references to variables, "
        "loops, grouped application, update hooks, edge types, UI extension, variables of all types) or a shipped one, "
        "carried through a dict, JSON text, a JSON or YAML file reference or the eject command, and loaded "
        "again: its definition must be the same, its hash must be the same, loading must not change its input, and both "
        "must produce the same edges and the same recorded actions on a data set; a definition with one edit (a setting, "
        "a step dropped, moved or repeated) has a different hash exactly if its definition differs; a reference loaded a "
        "second time, after what was loaded first was used or changed, gives the same definition. Non-trivial: a reference to a "
        "variable or a nested step or generator.")
ASSUMPTIONS = ["steps, generators and hooks are importable by name; conditions and hooks without settings of their own"]
WAYS = ["dict", "json", "json_file", "yaml_file"]
NAMES = ["PC", "PCClassic", "PCStable", "ParallelPC"]


def norm(a):
    d = json.loads(json.dumps(a.model_dump()))
    for k in ("extensions", "variables"):
        d[k] = d[k] or []
    return d


def carry(a, way, t):
    """the algorithm after a trip through `way`"""
    from causy.serialization import load_algorithm_from_specification, load_algorithm_by_reference
    from pydantic_yaml import to_yaml_str

    if way in ("dict", "json"):
        spec = a.model_dump()
        if way == "json":
            spec = json.loads(json.dumps(spec))
        before = copy.deepcopy(spec)
        b = load_algorithm_from_specification(spec)
        t.check(spec == before, f"loading changed the specification it was given ({way})")
        return b
    with scratch():
        name = "spec.json" if way == "json_file" else "spec.yml"
        with open(name, "w") as f:
            f.write(json.dumps(a.model_dump()) if way == "json_file" else to_yaml_str(a))
        return load_algorithm_by_reference("file", name)


def run(a, x, keys, variables=None):
    from causy.graph_model import graph_model_factory
    from vf.core import reset_global_state
    from vf.pool import fake_pools

    reset_global_state()
    with fake_pools(seed=3):
        m = graph_model_factory(copy.deepcopy(a), variables)()
        m.create_graph_from_data(data.rows(x, keys))
        m.create_all_possible_edges()
        m.execute_pipeline_steps()
        return {"edges": sorted(edges(m), key=lambda e: e[:2]), "actions": actions(m)}


@st.composite
def cases(draw):
    return {"algo": draw(algos.algorithms()), "way": draw(st.sampled_from(WAYS)), "seed": draw(st.integers(0, 999)),
            "n": draw(st.integers(3, 4)), "twice": draw(st.booleans()), "deep": draw(st.integers(0, 4)) == 0}


def generated(c, t):
    if c.get("deep"):
        c = dict(c, algo=algos.deeper(c["algo"]))
    a = algos.construct(c["algo"])
    algos.verify(c["algo"], a, t)
    before = norm(a)
    h = a.hash()
    b = carry(a, c["way"], t)
    if c["twice"]:
        b = carry(b, c["way"], t)
    t.equal(norm(a), before, "definition of the algorithm that was serialized")
    with t.reading("loaded algorithm"):
        got = norm(b)
    for k in before:
        t.equal(got.get(k), before[k], f"{k} after {c['way']}")
    if a.extensions is not None:
        t.equal(b.hash(), h, f"hash after {c['way']}")
    algos.verify(c["algo"], b, t)
    if c.get("deep"):
        t.nontrivial('"steps"' in json.dumps(c["algo"]["steps"]))
        t.label("nested twice")
        return
    dag = [[i, j] for i, j in itertools.combinations(range(c["n"]), 2) if (c["seed"] >> (i + j)) & 1]
    x = data.dataset({"n": c["n"], "dag": dag, "m": 40, "seed": c["seed"], "kind": "sem", "strength": 0.5,
                      "scale": [1.0] * c["n"], "shift": [0.0] * c["n"]})
    keys = data.names(c["n"])
    r1, r2 = run(a, x, keys), run(b, x, keys)
    t.equal(r2, r1, f"run of the algorithm after {c['way']}")
    t.nontrivial(bool(list(algos.refs(c["algo"]["steps"]))) or "Loop" in json.dumps(c["algo"]))
    t.label(c["way"])
    t.label("hooks", bool(c["algo"]["pre"]))
    t.label("nested generator", "inner" in json.dumps(c["algo"]))


# --- shipped algorithms
@st.composite
def shipped_cases(draw):
    c = draw(data.noisy_cases(3, 5, 15, 60))
    c["algo"] = draw(st.sampled_from(NAMES))
    c["way"] = draw(st.sampled_from(WAYS + ["name", "eject"]))
    c["vars"] = {"threshold": draw(st.sampled_from([0.01, 0.05, 0.3]))}
    return c


def shipped(c, t):
    from causy.serialization import load_algorithm_by_reference, load_algorithm_from_specification
    from vf.pool import fake_pools

    x = data.dataset(c)
    keys = data.names(c["n"])
    with fake_pools():
        a = data.algorithm(c["algo"])
        want = norm(a)
        ways = c["way"]
        var = {v.name: v.value for v in a.variables}
        if ways == "name":
            name = "ParallelPC" if c["algo"] == "ParallelPC" else "PC"
            a = data.algorithm(name)
            want = norm(a)
            var = {v.name: v.value for v in a.variables}
            b = load_algorithm_by_reference("name", name)
        elif ways == "eject":
            from typer.testing import CliRunner
            from causy.cli import app

            name = "ParallelPC" if c["algo"] == "ParallelPC" else "PC"
            a = data.algorithm(name)
            var = {v.name: v.value for v in a.variables}
            with scratch():
                r = CliRunner().invoke(app, ["eject", name, "out.json"])
                if r.exception:
                    raise r.exception
                b = load_algorithm_by_reference("file", "out.json")
        else:
            b = carry(a, ways, t)
        if ways == "eject":
            # the command writes the algorithm with its default settings filled in
            t.equal([s.name for s in b.pipeline_steps], [s.name for s in a.pipeline_steps], "steps of the ejected algorithm")
            c["vars"] = {}
        else:
            t.equal(norm(b), want, f"{c['algo']} after {ways}")
            t.equal(b.hash(), a.hash(), f"hash of {c['algo']} after {ways}")
        var.update(c["vars"])
        r1 = run(a, x, keys, var)
        r2 = run(b, x, keys, None if ways == "eject" else var)
        t.equal(r2, r1, f"run of {c['algo']} after {ways}")
        t.equal(norm(b), norm(b), "definition")
    t.nontrivial(len(r1["actions"]) > 3)
    t.label(ways)


# --- hashes tell definitions apart
def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            if k != "name" or not path:
                yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, k in enumerate(x):
            yield from leaves(k, path + (i,))
    elif isinstance(x, (bool, int, float)) or path == ("name",) or path[-1] == "display_name":
        yield path


@st.composite
def edit_cases(draw):
    return {"algo": draw(algos.algorithms()), "edit": draw(st.sampled_from(["leaf", "leaf", "leaf", "drop", "swap", "copy", "order", "order"])),
            "at": draw(st.integers(0, 400)), "to": draw(st.integers(0, 3))}


def edits(c, t):
    from causy.serialization import load_algorithm_from_specification

    a = algos.construct(c["algo"])
    spec = json.loads(json.dumps(a.model_dump()))
    steps = spec["pipeline_steps"]
    if c["edit"] == "leaf":
        ps = list(leaves(spec))
        path = ps[c["at"] % len(ps)]
        o = spec
        for k in path[:-1]:
            o = o[k]
        old = o[path[-1]]
        if isinstance(old, bool):
            o[path[-1]] = not old
        elif isinstance(old, int):
            o[path[-1]] = old + 1 + c["to"]
        elif isinstance(old, float):
            o[path[-1]] = old + [1e-9, 0.25, 1.0, -0.125][c["to"]]
        else:
            o[path[-1]] = "another name"
        t.label(str(path[-1]))
    elif c["edit"] == "drop":
        steps.pop(c["at"] % len(steps))
    elif c["edit"] == "order":
        # two entries of any list of the definition change places
        def lists(x):
            if isinstance(x, dict):
                for k in sorted(x):
                    yield from lists(x[k])
            elif isinstance(x, list):
                if len(x) > 1:
                    yield x
                for k in x:
                    yield from lists(k)

        ls = list(lists(spec))
        if not ls:
            raise Discard()
        ls = [k for k in ls if k is not steps] or ls
        which = ls[c["at"] % len(ls)]
        which.append(which.pop(c["to"] % (len(which) - 1)))
    elif c["edit"] == "swap":
        i = c["at"] % len(steps)
        steps.insert(0, steps.pop(i))
    else:
        steps.insert(0, copy.deepcopy(steps[c["at"] % len(steps)]))
    try:
        b = load_algorithm_from_specification(spec)
    except Exception:  # noqa - not a valid definition any more
        raise Discard()
    a = load_algorithm_from_specification(json.loads(json.dumps(a.model_dump())))
    same = norm(a) == norm(b)
    t.equal(a.hash() == b.hash(), same, f"equal hashes (edit {c['edit']}), definitions equal: {same}")
    t.nontrivial(not same)
    t.label("same definition" if same else "other definition")


# --- loading a reference again
@st.composite
def ref_cases(draw):
    return {"algo": draw(algos.algorithms()), "type": draw(st.sampled_from(["name", "file", "python_module"])),
            "name": draw(st.sampled_from(["PC", "ParallelPC"])), "uses": draw(st.lists(st.sampled_from(["run", "rename", "pop", "step", "var"]), min_size=1, max_size=3))}


def references(c, t):
    import importlib

    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference
    from vf.pool import fake_pools

    spec = algos.construct(c["algo"]).model_dump()
    with scratch(), fake_pools():
        with open("a.json", "w") as f:
            json.dump(spec, f)
        with open("vf_ref_mod.py", "w") as f:
            f.write("import json\nfrom causy.graph_model import graph_model_factory\n"
                    "from causy.serialization import load_algorithm_from_specification\n"
                    "PIPELINE = graph_model_factory(load_algorithm_from_specification(json.load(open('a.json'))))\n")
        import sys
        sys.path.insert(0, ".")
        importlib.invalidate_caches()
        sys.modules.pop("vf_ref_mod", None)
        ref = {"name": c["name"], "file": "a.json", "python_module": "vf_ref_mod.PIPELINE"}[c["type"]]
        try:
            a = load_algorithm_by_reference(c["type"], ref)
            want, h = norm(a), a.hash()
            values = {v.name: v.value for v in a.variables}
            if c["type"] != "name":
                t.equal(want["pipeline_steps"], json.loads(json.dumps(spec))["pipeline_steps"], f"steps loaded by {c['type']}")
            for u in c["uses"]:
                if u == "run":
                    graph_model_factory(a, values)()
                elif u == "rename":
                    a.name = "changed"
                elif u == "pop" and len(a.pipeline_steps) > 1:
                    a.pipeline_steps.pop()
                elif u == "step":
                    a.pipeline_steps[0].chunk_size_parallel_processing = 77
                elif u == "var" and a.variables:
                    a.variables[0].name = "changed"
            b = load_algorithm_by_reference(c["type"], ref)
            t.equal(norm(b), want, f"algorithm loaded again by {c['type']} after {c['uses']} on the first")
            t.equal(b.hash(), h, "hash of the algorithm loaded again")
        finally:
            sys.modules.pop("vf_ref_mod", None)
    t.nontrivial(c["uses"] != ["run"])
    t.label(c["type"])


SUBS = [
    Gen("edits", edit_cases, edits, quick=1200, thorough=15000),
    Gen("references", ref_cases, references, quick=400, thorough=5000),
    Gen("generated", cases, generated, quick=1500, thorough=15000, timeout=120),
    Gen("shipped", shipped_cases, shipped, quick=300, thorough=3000, timeout=120),
]
