import copy
import json

from hypothesis import strategies as st

from vf.core import Gen
from vf import algos

RULE = ("(1) a generated algorithm whose steps, generators, comparison settings and nested steps refer to variables, and "
        "two sets of values: models built from the one algorithm object with either set, with the defaults and with "
        "each set again must have exactly the steps of the algorithm written out with those values, and the algorithm "
        "stays as it was; a reference to a variable that does not exist is rejected; (2) a variable of any type, with "
        "or without choices, and any value: accepted exactly if it has the type and is one of the choices, directly, "
        "as default and in a set of values for an algorithm; values given replace exactly the defaults they name. "
        "Non-trivial: a reference below the top level, or two sets with different values (1); choices or a value of "
        "a look-alike type (2).")
ASSUMPTIONS = ["values given to graph_model_factory are none or complete (the commands complete them with the defaults)"]


def subst(x, values):
    if isinstance(x, dict):
        if "$ref" in x:
            return values[x["$ref"]]
        return {k: subst(v, values) for k, v in x.items()}
    return [subst(v, values) for v in x] if isinstance(x, list) else x


def plain(steps):
    return json.loads(json.dumps([s.model_dump() for s in steps]))


def fields(o, depth=0):
    """the values a step really holds, attribute by attribute (not through its serializer)"""
    import enum

    from pydantic import BaseModel

    if isinstance(o, enum.Enum):
        return o.value
    if isinstance(o, BaseModel):
        return {"cls": type(o).__name__, **{k: fields(getattr(o, k)) for k in sorted(type(o).model_fields)}}
    if isinstance(o, list):
        return [fields(k) for k in o]
    return [type(o).__name__, o] if isinstance(o, (bool, int, float, str)) or o is None else type(o).__name__


@st.composite
def cases(draw):
    a = draw(algos.algorithms())
    if draw(st.integers(0, 2)) == 0:
        a = algos.deeper(a)
    # the values of a step are compared, it is not run: any value of the type goes
    def values():
        out = {}
        for v in a["variables"]:
            pool = v["choices"] or {"float": [0.0, 0.25, -1.5, 1e-9], "integer": [1, 2, 7, 1000], "bool": [True, False],
                                    "string": ["x", "thr", "1e5"]}[v["type"]]
            out[v["name"]] = draw(st.sampled_from(pool))
        return out

    return {"algo": a, "v1": values(), "v2": values(), "order": draw(st.permutations(["v1", "v2", "default", "v1", "v2"])),
            "drop": draw(st.integers(0, 3))}


def resolution(c, t):
    from causy.graph_model import graph_model_factory
    from vf.pool import fake_pools

    d = c["algo"]
    a = algos.construct(d)
    before = [fields(a.pipeline_steps), json.dumps(a.model_dump(), sort_keys=True), a.hash()]
    values = {"v1": c["v1"], "v2": c["v2"], "default": {v["name"]: v["value"] for v in d["variables"]}}
    models = []
    with fake_pools():
        for k in c["order"]:
            given = None if k == "default" else dict(values[k])
            m = graph_model_factory(a, given)()
            if given is not None:
                t.equal(given, values[k], "the values that were given")
            models.append((k, m))
        for k, m in models:
            want = algos.construct(dict(d, steps=subst(d["steps"], values[k]))).pipeline_steps
            t.equal(fields(m.pipeline_steps), fields(want), f"steps of the model built with {k} = {values[k]}")
            t.equal(plain(m.algorithm.pipeline_steps), plain(want), f"serialized steps with {k} = {values[k]}")
            kept = getattr(m, "_original_algorithm", None)
            if kept is not None:
                t.equal(json.dumps(kept.model_dump(), sort_keys=True), before[1], "original algorithm of the model")
        t.equal([fields(a.pipeline_steps), json.dumps(a.model_dump(), sort_keys=True), a.hash()], before,
                "the algorithm after building models from it")
        used = sorted(set(algos.refs(d["steps"])))
        if used:
            gone = used[c["drop"] % len(used)]
            d2 = dict(d, variables=[v for v in d["variables"] if v["name"] != gone])
            t.raises(ValueError, lambda: graph_model_factory(algos.construct(d2))(), f"model with the undefined variable {gone}")
            given = {k: v for k, v in c["v1"].items() if k != gone}
            if given:
                t.raises(ValueError, lambda: graph_model_factory(algos.construct(d2), given)(), f"no value for the undefined variable {gone}")
    t.nontrivial(c["v1"] != c["v2"] and bool(used))
    t.label("nested", any(algos.refs([s.get("steps", []) for s in d["steps"]])))
    t.label("in generator", any(algos.refs([s.get("generator") for s in d["steps"]])))


TYPES = {"string": "StringVariable", "integer": "IntegerVariable", "float": "FloatVariable", "bool": "BoolVariable"}
PY = {"string": str, "integer": int, "float": float, "bool": bool}
one = {"string": st.one_of(st.sampled_from(["", "a", "1", "True", "1.0"]), st.text(max_size=3)),
       "integer": st.one_of(st.sampled_from([0, 1, -1, 10**18]), st.integers()),
       "float": st.one_of(st.sampled_from([0.0, 1.0, -0.5, 1e300]), st.floats(allow_nan=False)),
       "bool": st.booleans()}
anything = st.one_of(one["string"], one["integer"], one["float"], one["bool"], st.sampled_from([None, [], {}, [1], "x"]))


@st.composite
def var_cases(draw):
    vs = []
    for name in draw(st.lists(st.sampled_from(["a", "b", "c", "threshold"]), min_size=1, max_size=4, unique=True)):
        ty = draw(st.sampled_from(sorted(TYPES)))
        choices = draw(st.one_of(st.none(), st.lists(one[ty], min_size=draw(st.sampled_from([1, 1, 1, 0])), max_size=3)))
        if ty == "float" and choices and draw(st.integers(0, 2)) == 0:
            # whole numbers among the choices, as a file that says "choices: [1, 2.5]" has them
            choices = [int(x) if x == x // 1 and abs(x) < 1e15 else x for x in choices]
        default = PY[ty](draw(st.sampled_from(choices))) if choices and draw(st.integers(0, 4)) else draw(one[ty])
        vs.append({"name": name, "type": ty, "choices": choices, "value": default,
                   "try": draw(st.lists(st.one_of(one[ty], anything, st.sampled_from(choices or [None])), min_size=1, max_size=4))})
    names = ["a", "b", "c", "threshold", "unknown"]
    given = {}
    for k in draw(st.lists(st.sampled_from(names), max_size=4, unique=True)):
        v = next((v for v in vs if v["name"] == k), None)
        ok = one[v["type"]] if v and draw(st.integers(0, 4)) else anything
        given[k] = draw(st.sampled_from(v["choices"]) if v and v["choices"] and draw(st.booleans()) else ok)
    return {"vars": vs, "given": given}


def ok(v, x):
    return type(x) is PY[v["type"]] and (not v["choices"] or x in v["choices"])


def variables(c, t):
    from causy import variables as V
    from causy.models import Algorithm

    made = []
    for v in c["vars"]:
        cls = getattr(V, TYPES[v["type"]])
        make = lambda: cls(name=v["name"], value=v["value"], choices=copy.copy(v["choices"]))  # noqa
        if not ok(v, v["value"]):
            t.raises(ValueError, make, f"{v['type']} variable with default {v['value']!r} not in {v['choices']!r}")
            v = dict(v, value=PY[v["type"]](v["choices"][0]))
            t.label("default outside the choices")
        o = make()
        t.equal([o.name, o.type, o.value, type(o.value).__name__], [v["name"], v["type"], v["value"], PY[v["type"]].__name__], "variable")
        t.equal(o.is_valid(), True, "is_valid")
        for x in v["try"]:
            t.equal(o.is_valid_value(x), ok(v, x), f"is_valid_value({x!r}) for {v['type']} with choices {v['choices']!r}")
            if ok(v, x):
                o.validate_value(x)
            else:
                t.raises(ValueError, lambda: o.validate_value(x), f"validate_value({x!r})")
            t.nontrivial(v["choices"] is not None or type(x) is not PY[v["type"]])
        made.append((v, o))
    a = Algorithm(name="a", pipeline_steps=[], edge_types=[], extensions=[], variables=[o for _, o in made])
    by = {v["name"]: v for v, _ in made}
    given = c["given"]
    good = all(k in by and ok(by[k], x) for k, x in given.items())
    if good:
        V.validate_variable_values(a, given)
        want = {k: v["value"] for k, v in by.items()}
        want.update(given)
        got = V.resolve_variables(a.variables, given)
        t.equal({k: [type(x).__name__, x] for k, x in got.items()}, {k: [type(x).__name__, x] for k, x in want.items()}, "resolved variables")
    else:
        t.raises(ValueError, lambda: V.validate_variable_values(a, given), f"validate_variable_values({given!r})")
    t.label("accepted" if good else "rejected")


SUBS = [
    Gen("resolution", cases, resolution, quick=1500, thorough=20000),
    Gen("variables", var_cases, variables, quick=4000, thorough=60000),
]
