"""Generated algorithm definitions (as JSON) and their construction through causy's public classes."""
import itertools

from hypothesis import strategies as st

TESTS = ["CorrelationCoefficientTest", "PartialCorrelationTest", "ExtendedPartialCorrelationTestMatrix"]
RULES = ["NonColliderTest", "FurtherOrientTripleTest", "OrientQuadrupleTest", "FurtherOrientQuadrupleTest"]
LOGIC = ["Loop", "ApplyActionsTogether"]

# name -> (type, default, other valid values)
VARS = {
    "thr": ["float", 0.05, [0.01, 0.2, 0.5, 0.0, 1.0]],
    "chunk": ["integer", 5, [1, 2, 1000]],
    "flag": ["bool", False, [True, False]],
    "label": ["string", "a name", ["x", "1e5", "yes", "null"]],
    "unused": ["float", 1.5, [2.5]],
    "two": ["integer", 2, []],
    "three": ["integer", 3, []],
    "nth": ["integer", 0, [1]],
    "off": ["bool", False, []],
}


def ref(name):
    return {"$ref": name}


def maybe_ref(values, var):
    return st.one_of(st.just(None), st.sampled_from(values), st.just(ref(var)))


def generators(kind):
    sizes = {"pairs": [2, 2], "triples": [3, 3], "ext": [4, 0]}[kind]
    lo, hi = [st.just(sizes[0]), st.just(sizes[1])]
    if kind != "ext":
        lo, hi = [st.sampled_from([s, s, ref({2: "two", 3: "three"}[s])]) for s in sizes]
    alls = st.fixed_dictionaries({"cls": st.just("AllCombinationsGenerator"), "min": lo, "max": hi})
    if kind != "ext":
        return st.one_of(st.none(), alls)
    neigh = st.fixed_dictionaries({
        "cls": st.just("PairsWithNeighboursGenerator"), "min": st.sampled_from([3, 4]), "max": st.sampled_from([0, 4, 5]),
        "chunked": st.one_of(st.none(), st.booleans(), st.just(ref("flag"))),
        "shuffle": st.sampled_from([False, False, ref("off")])})
    samp = neigh.map(lambda g: {"cls": "RandomSampleGenerator", "every": ref("nth") if g["min"] == 3 else 0, "inner": dict(g, chunked=ref("off") if g["chunked"] else False, min=ref("three") if g["max"] == 5 else g["min"])})
    return st.one_of(st.none(), neigh, neigh, samp)


@st.composite
def step(draw, cls, parallel=True):
    d = {"cls": cls}
    d["threshold"] = draw(maybe_ref([0.01, 0.05, 0.3, 0.0], "thr"))
    d["display_name"] = draw(maybe_ref(["A step", "ä: - '\""], "label"))
    d["chunk"] = draw(maybe_ref([1, 2, 50], "chunk"))
    d["parallel"] = draw(st.sampled_from([None, False, False] + ([True, ref("flag")] if parallel else [])))
    d["sync"] = draw(maybe_ref([True, False], "flag"))
    if cls == "ExtendedPartialCorrelationTestMatrix":
        d["generator"] = draw(generators("ext"))
    elif cls == "PartialCorrelationTest":
        d["generator"] = draw(generators("triples"))
    elif cls == "ComputeDirectEffectsInDAGsMultivariateRegression":
        d["generator"] = draw(st.one_of(st.none(), st.fixed_dictionaries({
            "cls": st.just("PairsWithEdgesInBetweenGenerator"), "chunked": st.sampled_from([None, True, False, ref("flag")]),
            "chunk_size": st.sampled_from([None, 1, 3, ref("chunk")])})))
    else:
        d["generator"] = draw(generators("pairs"))
    if cls == "ColliderTest":
        d["strategy"] = draw(st.sampled_from([None, "KEEP_FIRST", "KEEP_LAST"]))
    return d


@st.composite
def algorithms(draw):
    steps = [draw(step("CalculatePearsonCorrelations"))]
    kinds = draw(st.lists(st.sampled_from(TESTS), max_size=3))
    if TESTS[0] in kinds:  # it can only run while all edges exist (known finding F1)
        kinds = TESTS[:1] + [k for k in kinds if k != TESTS[0]]
    tests = [draw(step(c)) for c in kinds]
    if tests and draw(st.integers(0, 3)) == 0:
        steps.append({"cls": "ApplyActionsTogether", "steps": tests, "display_name": draw(maybe_ref(["T"], "label"))})
    else:
        steps += tests
    if draw(st.booleans()):
        steps.append(draw(step("ColliderTest", parallel=False)))
    rules = [draw(step(c, parallel=False)) for c in draw(st.lists(st.sampled_from(RULES), max_size=3))]
    if rules and draw(st.booleans()):
        steps.append({"cls": "Loop", "steps": rules, "display_name": None, "exit": True})
    else:
        steps += rules
    if draw(st.integers(0, 7)) == 0:
        steps.append({"cls": "ApplyActionsTogether", "steps": [], "display_name": None})
    if draw(st.booleans()):
        steps.append(draw(step("ComputeDirectEffectsInDAGsMultivariateRegression")))
    used = set(refs(steps))
    names = sorted(used) + [k for k in VARS if k not in used and draw(st.integers(0, 3)) == 0]
    variables = []
    for k in draw(st.permutations(names)):
        ty, dflt, other = VARS[k]
        value = draw(st.sampled_from([dflt] + other))
        variables.append({"name": k, "type": ty, "value": value,
                          "choices": draw(st.sampled_from([None, None, "some"]))})
        if variables[-1]["choices"]:
            variables[-1]["choices"] = [value] + [o for o in [dflt] + other if o != value]
    hook = st.lists(st.sampled_from(["DropMarked", "Reverse"]), max_size=2)
    return {"name": draw(st.sampled_from(["PC", "my algorithm", "1.0", "ä", "😀 \x07"])), "steps": steps, "variables": variables,
            "ui": draw(st.booleans()), "edge_types": draw(st.sampled_from([["Directed", "Undirected"], ["Directed", "Undirected", "BiDirected"], ["Directed*", "Undirected"]])),
            "pre": draw(st.one_of(st.none(), hook)), "none": draw(st.booleans())}


def deeper(d):
    """the same with every logic step inside of another one (cannot be run, but stored and resolved)"""
    def wrap(s):
        if "steps" not in s:
            return s
        return {"cls": "ApplyActionsTogether" if s["cls"] == "Loop" else "Loop", "steps": [s], "display_name": None,
                "exit": s["cls"] != "Loop"}

    return dict(d, steps=[wrap(s) for s in d["steps"]])


def refs(x):
    if isinstance(x, dict):
        if "$ref" in x:
            yield x["$ref"]
        for v in x.values():
            yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v)


def construct(d):
    """the Algorithm object a definition describes"""
    from causy import generators as G
    from causy.causal_discovery.constraint.independence_tests import common as T
    from causy.causal_discovery.constraint.orientation_rules import pc as O
    from causy.causal_effect_estimation import multivariate_regression as M
    from causy.common_pipeline_steps import calculation as C, logic as L
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy import edge_types as E
    from causy.causal_discovery.constraint.algorithms.pc import PC_GRAPH_UI_EXTENSION
    from causy.models import Algorithm, ComparisonSettings
    from causy.variables import VariableReference, FloatVariable, IntegerVariable, BoolVariable, StringVariable
    from vf import scripted

    def val(x):
        return VariableReference(name=x["$ref"]) if isinstance(x, dict) else x

    def put(kw, **more):
        return {**kw, **{k: val(v) for k, v in more.items() if v is not None}}

    def gen(g):
        kw = {}
        if "min" in g:
            kw["comparison_settings"] = ComparisonSettings(min=val(g["min"]), max=val(g["max"]))
        kw = put(kw, chunked=g.get("chunked"), shuffle_combinations=g.get("shuffle"), chunk_size=g.get("chunk_size"),
                 every_nth=g.get("every"))
        if "inner" in g:
            kw["generator"] = gen(g["inner"])
        return getattr(G, g["cls"])(**kw)

    def one(s):
        cls = next(getattr(m, s["cls"]) for m in (T, O, M, C, L) if hasattr(m, s["cls"]))
        if "steps" in s:
            kw = put({"pipeline_steps": [one(k) for k in s["steps"]]} if s["steps"] else {}, display_name=s["display_name"])
            if s.get("exit"):
                kw["exit_condition"] = ExitOnNoActions()
            return cls(**kw)
        kw = put({}, threshold=s["threshold"], display_name=s["display_name"], chunk_size_parallel_processing=s["chunk"],
                 parallel=s["parallel"], apply_synchronous=s["sync"])
        if s["generator"] is not None:
            kw["generator"] = gen(s["generator"])
        if s.get("strategy"):
            kw["conflict_resolution_strategy"] = O.ColliderTestConflictResolutionStrategies(s["strategy"])
        return cls(**kw)

    V = {"float": FloatVariable, "integer": IntegerVariable, "bool": BoolVariable, "string": StringVariable}
    return Algorithm(
        name=d["name"], pipeline_steps=[one(s) for s in d["steps"]],
        edge_types=[getattr(E, k.rstrip("*") + "Edge")(**({"STR_REPRESENTATION": "=>"} if k.endswith("*") else {})) for k in d["edge_types"]],
        extensions=[PC_GRAPH_UI_EXTENSION] if d["ui"] else (None if d["none"] else []),
        variables=[V[v["type"]](name=v["name"], value=v["value"], choices=v["choices"]) for v in d["variables"]],
        pre_graph_update_hooks=None if d["pre"] is None else [getattr(scripted, k)() for k in d["pre"]])


def verify(d, a, t):
    """the constructed objects hold exactly the settings they were given"""
    from causy.variables import VariableReference

    def same(obj, attr, want, where):
        if want is None:
            return
        with t.reading(where):
            got = getattr(obj, attr)
        if isinstance(want, dict):
            t.check(isinstance(got, VariableReference) and got.name == want["$ref"],
                    f"{where}.{attr} is {got!r}, given: reference to {want['$ref']}")
        else:
            got = getattr(got, "value", got) if isinstance(want, str) else got
            t.check(got == want and isinstance(got, bool) == isinstance(want, bool), f"{where}.{attr} is {got!r}, given: {want!r}")

    def gen(g, o, where):
        t.check(type(o).__name__ == g["cls"], f"{where} is a {type(o).__name__}, given: {g['cls']}")
        if "min" in g:
            same(o.comparison_settings, "min", g["min"], where + ".comparison_settings")
            same(o.comparison_settings, "max", g["max"], where + ".comparison_settings")
        for attr, k in (("chunked", "chunked"), ("shuffle_combinations", "shuffle"), ("chunk_size", "chunk_size"), ("every_nth", "every")):
            same(o, attr, g.get(k), where)
        if "inner" in g:
            gen(g["inner"], o.generator, where + ".generator")

    def steps(ds, os, where):
        t.check([x["cls"] for x in ds] == [type(o).__name__ for o in os], f"steps of {where}")
        for i, (x, o) in enumerate(zip(ds, os)):
            w = f"{where}[{i}] {x['cls']}"
            same(o, "display_name", x["display_name"], w)
            if "steps" in x:
                steps(x["steps"], o.pipeline_steps, w)
                continue
            for attr, k in (("threshold", "threshold"), ("chunk_size_parallel_processing", "chunk"), ("parallel", "parallel"),
                            ("apply_synchronous", "sync"), ("conflict_resolution_strategy", "strategy")):
                same(o, attr, x.get(k), w)
            if x["generator"] is not None:
                gen(x["generator"], o.generator, w + ".generator")

    steps(d["steps"], a.pipeline_steps, "pipeline_steps")
    t.equal([(v.name, v.value) for v in a.variables], [(v["name"], v["value"]) for v in d["variables"]], "variables")
    t.equal(a.name, d["name"], "name")
