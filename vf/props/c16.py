import hashlib
import itertools
import json
import os
import sys

import numpy as np
from hypothesis import strategies as st

from vf.core import Gen, Enum
from vf import data
from vf.scratch import scratch

RULE = ("a table (1-5 named columns, 1-8 rows, integers and floats of any magnitude) given as list of rows, dict of "
        "columns, JSON list, JSON dict, JSONL file or dynamic data loader, with any key order per row: the graph must "
        "have exactly one node per column, in id, name and values; then a discovery run on each format of one data set "
        "must give one result; loader hashes must be equal for equal file and options and different otherwise. "
        "Files with 500-9000 rows: read as written, a change anywhere changes the hash. Non-trivial: at least two columns and two rows (or a changed hash input).")
ASSUMPTIONS = ["finite numbers, rectangular tables"]
FORMATS = ["list", "dict", "json_list", "json_dict", "jsonl", "dynamic"]

num = st.one_of(st.integers(-10**6, 10**6), st.floats(allow_nan=False, allow_infinity=False, width=64),
                st.sampled_from([0, 0.0, -0.0, 1e308, 5e-324, 2**60]))
name = st.one_of(st.sampled_from(["x", "y", "z", "X", "a b", "ä", "0", "10", "2", "name", "id", "values", "u", "_dict", "a\u2028b", "a\x85", "\x1c"]),
                 st.text(min_size=1, max_size=6).filter(lambda s: not any(0xD800 <= ord(k) < 0xE000 for k in s)))


@st.composite
def tables(draw):
    cols = draw(st.lists(name, min_size=1, max_size=5, unique=True))
    m = draw(st.integers(1, 8))
    vals = {c: draw(st.lists(num, min_size=m, max_size=m)) for c in cols}
    orders = [draw(st.permutations(cols)) for _ in range(m)]
    return {"cols": cols, "m": m, "vals": [vals[c] for c in cols], "orders": orders,
            "format": draw(st.sampled_from(FORMATS)), "indent": draw(st.sampled_from([None, 2])),
            "nl": draw(st.booleans())}


def rows_of(c):
    v = dict(zip(c["cols"], c["vals"]))
    return [{k: v[k][i] for k in c["orders"][i]} for i in range(c["m"])]


DYN = '''
import json
from causy.data_loader import AbstractDataLoader


class Table(AbstractDataLoader):
    def __init__(self, path=None, skip=0):
        self.path, self.skip = path or "dyn.json", skip

    def load(self):
        for r in json.load(open(self.path))[self.skip:]:
            yield r

    def hash(self):
        import hashlib
        return hashlib.sha256(open(self.path, "rb").read()).hexdigest()
'''


def source(fmt, rows, cols, d, indent=None, nl=True):
    """the object to pass to create_graph_from_data"""
    from causy.data_loader import DataLoaderReference, load_data_loader

    by_col = {k: [r[k] for r in rows] for k in cols}
    if fmt == "list":
        return rows
    if fmt == "dict":
        return by_col
    if fmt in ("json_list", "json_dict"):
        with open("t.json", "w") as f:
            json.dump(rows if fmt == "json_list" else by_col, f, indent=indent, ensure_ascii=bool(indent))
        return load_data_loader(DataLoaderReference(type="json", reference="t.json"))
    if fmt == "jsonl":
        with open("t.jsonl", "w") as f:
            f.write("\n".join(json.dumps(r, ensure_ascii=bool(indent)) for r in rows) + ("\n" if nl else ""))
        return load_data_loader(DataLoaderReference(type="jsonl", reference="t.jsonl"))
    with open("dyn.json", "w") as f:
        json.dump(rows, f)
    # the module name is unique to the scratch directory
    mod = "vf_dyn_" + hashlib.sha1(d.encode()).hexdigest()[:10]
    with open(mod + ".py", "w") as f:
        f.write(DYN)
    sys.path.append(d)
    return load_data_loader(DataLoaderReference(type="dynamic", reference=mod + ".Table",
                                                options=None if nl else {"path": d + "/dyn.json"}))


def model():
    from vf import orient

    return orient.model_with([], None)


def ingest(c, t):
    rows = rows_of(c)
    with scratch() as d:
        m = model()
        g = m.create_graph_from_data(source(c["format"], rows, c["cols"], d, c["indent"], c["nl"]))
        with t.reading("nodes"):
            got = {k: (n.id, n.name, n.values.tolist(), str(n.values.dtype)) for k, n in m.graph.nodes.items()}
        want = {k: (k, k, [float(x) for x in v], "torch.float64") for k, v in zip(c["cols"], c["vals"])}
        t.equal(got, want, f"nodes read from {c['format']}")
        t.check(g is m.graph, "create_graph_from_data did not return the model's graph")
        t.check(not m.graph.retrieve_edges(), "a freshly loaded graph has edges")
        m.create_all_possible_edges()
        with t.reading("edges"):
            e = {(x.u.id, x.v.id): (x.edge_type.name, dict(x.metadata)) for x in m.graph.retrieve_edges()}
        t.equal(e, {p: ("UNDIRECTED", {}) for p in itertools.permutations(c["cols"], 2)}, "complete graph")
    t.nontrivial(len(c["cols"]) > 1 and c["m"] > 1)
    t.label(c["format"])
    t.label("key order differs between rows", len({tuple(o) for o in c["orders"]}) > 1)


# --- discovery does not depend on the format
@st.composite
def disc_cases(draw):
    c = draw(data.noisy_cases(3, 5, 15, 60, affine=False))
    c["algo"] = draw(st.sampled_from(["PC", "PCClassic", "PCStable"]))
    return c


def discovery(c, t):
    x = data.dataset(c)
    keys = data.names(c["n"])
    rows = data.rows(x, keys)
    ref_ = None
    for fmt in FORMATS:
        with scratch() as d:
            m = data.discover(c["algo"], x, data=source(fmt, rows, keys, d))
        with t.reading("result"):
            got = sorted((e.u.id, e.v.id, e.edge_type.name, json.dumps(e.metadata, sort_keys=True)) for e in m.graph.retrieve_edges())
        if ref_ is None:
            ref_ = got
        t.equal(got, ref_, f"result from {fmt} (list of rows expected)")
    t.nontrivial(len(ref_) > 1)


# --- hashes
@st.composite
def hash_cases(draw):
    c = draw(tables())
    c["format"] = draw(st.sampled_from(["json_list", "json_dict", "jsonl", "dynamic"]))
    val = st.one_of(st.integers(0, 2), st.integers(0, 2), st.sampled_from(["1", "", "x", True, False, None, [1, 2], [2, 1], {"k": 1, "l": 2}, {"l": 2, "k": 1}]))
    opt = st.one_of(st.none(), st.dictionaries(st.sampled_from(["a", "b", "c"]), val, max_size=3))
    c["o1"] = draw(opt)
    c["o2"] = draw(st.one_of(opt, st.just(c["o1"])))
    c["edit"] = draw(st.sampled_from(["cell", "cell", "swap", "twice", "drop", "repeat"]))
    c["row"], c["col"] = draw(st.integers(0, c["m"] - 1)), draw(st.sampled_from(c["cols"]))
    c["new"] = draw(num)
    return c


def hashes(c, t):
    from causy.data_loader import DataLoaderReference, load_data_loader

    with scratch() as d:
        def digest(rows, opts, elsewhere=False):
            s = source(c["format"], rows, c["cols"], d)
            if c["format"] == "dynamic":
                opts = (opts or {}).get("a", 0)
                opts = {"skip": opts if type(opts) is int else 3}
            elif elsewhere:
                os.makedirs("other place", exist_ok=True)
                os.replace(s.reference, "other place/copy")
                s.reference = "other place/copy"
            ref = DataLoaderReference(type=c["format"].split("_")[0], reference=s.reference, options=opts)
            return load_data_loader(ref).hash(), opts

        rows = rows_of(c)
        h1, o1 = digest(rows, c["o1"])
        h2, o2 = digest(json.loads(json.dumps(rows)), dict(reversed(list(c["o2"].items()))) if c["o2"] else c["o2"], elsewhere=True)
        t.check(isinstance(h1, str) and h1, f"hash is {h1!r}")
        equal = json.dumps(o1, sort_keys=True) == json.dumps(o2, sort_keys=True)
        t.check((h1 == h2) == equal, f"{c['format']}: same data, options {o1} and {o2}: hashes {h1} and {h2}")
        changed = json.loads(json.dumps(rows))
        edit = c.get("edit", "cell")
        if edit == "cell":
            changed[c["row"]][c["col"]] = c["new"]
        elif edit == "swap":
            changed[0], changed[c["row"]] = changed[c["row"]], changed[0]
        elif edit == "drop":
            changed.pop(c["row"])
        else:
            changed += [dict(changed[c["row"]])] * (2 if edit == "twice" else 1)
        h3, _ = digest(changed, c["o1"])
        same = json.dumps(changed) == json.dumps(rows)
        t.check((h1 == h3) == same, f"{c['format']}: {'same' if same else 'different'} data, same options: hashes {h1} and {h3}")
    t.nontrivial(not same or not equal)
    t.label("same everything", same and equal)


# --- large files: every part of the content counts
def large_cases(tier):
    k = 0
    for fmt in ("json_list", "json_dict", "jsonl"):
        for size in (500, 3000, 9000) + ((100000,) if tier == "thorough" else ()):
            for where in ("first", "middle", "last", "last_digit", "none"):
                k += 1
                yield {"format": fmt, "rows": size, "where": where, "seed": k}


def large(c, t):
    rng = np.random.RandomState(c["seed"])
    x = np.round(rng.standard_normal((c["rows"], 3)), 6)
    rows = data.rows(x, ["a", "b", "c"])
    with scratch() as d:
        s1 = source(c["format"], rows, ["a", "b", "c"], d)
        h1 = s1.hash()
        m = model()
        m.create_graph_from_data(s1)
        for i, k in enumerate("abc"):
            t.check(m.graph.nodes[k].values.tolist() == [float(v) for v in x[:, i]], f"column {k} of a {c['rows']}-row {c['format']} file was not read as written")
        h1b = s1.hash()
    t.equal(h1b, h1, "hash of the same file after loading it")
    changed = [dict(r) for r in rows]
    k = {"first": 0, "middle": len(rows) // 2, "last": -1, "last_digit": -1, "none": 0}[c["where"]]
    if c["where"] == "last_digit":
        v = repr(changed[k]["c"])
        changed[k]["c"] = float(v[:-1] + ("3" if v[-1] != "3" else "4"))
    elif c["where"] != "none":
        changed[k]["b"] += 1.5
    with scratch() as d:
        h2 = source(c["format"], changed, ["a", "b", "c"], d).hash()
    t.check((h1 == h2) == (c["where"] == "none"), f"{c['format']} with {c['rows']} rows, change at {c['where']}: hashes {h1}, {h2}")
    t.nontrivial(c["where"] != "none")
    t.label(c["where"])


SUBS = [
    Enum("large_files", large_cases, large),
    Gen("ingest", tables, ingest, quick=6250, thorough=25000),
    Gen("discovery", disc_cases, discovery, quick=300, thorough=1500),
    Gen("hashes", hash_cases, hashes, quick=2000, thorough=8000),
]
