import copy
import itertools
import json
import os
import re

from hypothesis import strategies as st

from vf.core import Gen
from vf import ws
from vf.scratch import scratch

RULE = ("two to four stored results over a few variables, each pair not adjacent, undirected or directed either way, "
        "compared by experiment name (latest) and by version: the table of the diff command must list every pair adjacent "
        "in any result once, with each result's edge as seen from the row's label, and with only-differences exactly the "
        "pairs that are not the same in all of them. Non-trivial: some pairs differ and some agree.")
ASSUMPTIONS = ["results of discovery runs: one edge or one undirected edge per pair"]
NODES = ["A", "B", "C", "D"]
# names in different orders and cases, and ones that mean something to the terminal
NAMINGS = [NODES, NODES, ["a", "A", "b", "B"], ["v[km/h]", "v[mean]", "x[/b]", "[x]"], ["x10", "x9", "Ä b", "\\[b]"], ["D", "b", "C", "a-b"]]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    pairs = list(itertools.combinations(range(n), 2))
    k = draw(st.integers(2, 4))
    first = [draw(st.sampled_from(["", "---", "-->", "<--"])) for _ in pairs]
    res = [first]
    for _ in range(k - 1):
        base = draw(st.sampled_from(res))
        res.append([draw(st.sampled_from(["", "---", "-->", "<--"])) if draw(st.integers(0, 2)) == 0 else b for b in base])
    where = []
    same = draw(st.integers(0, 3)) == 0
    for i in range(k):
        if same:  # versions that differ in a single, leading digit
            where.append([draw(st.sampled_from(["exp", "e"])), draw(st.sampled_from([1700000042, 17000000420])) + i * 10 ** 6 * draw(st.sampled_from([1, 100]))])
            continue
        where.append([draw(st.sampled_from(["exp", "exp_1", "e"])), 10 + i * 7 if draw(st.booleans()) else 2000 - i])
    return {"n": n, "res": res, "where": where, "by": [draw(st.booleans()) for _ in range(k)], "order": draw(st.permutations(range(k))),
            "edge_order": [draw(st.permutations(range(len(pairs)))) for _ in range(k)], "flip": draw(st.booleans()), "naming": draw(st.integers(0, len(NAMINGS) - 1))}


def table(out):
    rows = []
    for line in out.splitlines():
        if "│" in line:
            rows.append([x.strip() for x in line.strip().strip("│").split("│")])
    return rows


def diff(c, t):
    import datetime

    from causy import edge_types as E
    from causy.graph import Node, Edge
    from causy.models import AlgorithmReference, Result
    from causy.serialization import CausyJSONEncoder

    names = NAMINGS[c.get("naming", 0)][: c["n"]]
    nodes = {k: Node(id=k, name=k) for k in names}
    pairs = list(itertools.combinations(names, 2))
    cols, env = [], os.environ.get("COLUMNS")
    with scratch():
        latest = {}
        for (e, v) in c["where"]:
            latest[e] = max(latest.get(e, 0), v)
        stored = {}
        for i, (e, v) in enumerate(c["where"]):
            es = []
            for j in c["edge_order"][i]:
                a, b = pairs[j]
                k = c["res"][i][j]
                if k == "---":
                    two = [Edge(u=nodes[x], v=nodes[y], edge_type=E.UndirectedEdge(), metadata={"correlation": 0.1 * i}) for x, y in ((a, b), (b, a))]
                    es += two[::-1] if c["flip"] else two
                elif k:
                    x, y = (a, b) if k == "-->" else (b, a)
                    es.append(Edge(u=nodes[x], v=nodes[y], edge_type=E.DirectedEdge(), metadata={"correlation": 0.1 * i}))
            r = Result(algorithm=AlgorithmReference(type="name", reference="PC"), created_at=datetime.datetime(2024, 1, 1), nodes=nodes, edges=es, action_history=[])
            with open(f"{e}_{v}.json", "w") as f:
                json.dump(r.model_dump(), f, cls=CausyJSONEncoder)
            stored[(e, v)] = dict(zip(pairs, c["res"][i]))
        ws.write_yaml({"name": "w", "author": "a", "pipelines": {"p": {"type": "name", "reference": "PC"}},
                       "dataloaders": {"d": {"type": "json", "reference": "d.json"}},
                       "experiments": {e: {"pipeline": "p", "dataloader": "d"} for e in ("exp", "exp_1", "e")}})
        args = []
        for i in c["order"]:
            e, v = c["where"][i]
            if c["by"][i]:
                args.append(e)
                cols.append(stored[(e, latest[e])])
            else:
                args.append(f"{e}_{v}")
                cols.append(stored[(e, v)])
        os.environ["COLUMNS"] = "250"
        try:
            # what does not exist is not compared
            for bad in ([args[0]], [args[0], "nope"], [f"{c['where'][0][0]}_123", args[0]], ["nope_5", args[0]]):
                r = ws.cli(["workspace", "diff"] + bad)
                t.check(not table(r.output), f"diff {' '.join(bad)} lists something: {r.output[:200]}")
            outs = {flag: ws.cli(["workspace", "diff"] + flag.split() + args).output for flag in ("", "--only-differences")}
        finally:
            if env is None:
                del os.environ["COLUMNS"]
            else:
                os.environ["COLUMNS"] = env
    flip = {"": "", "---": "---", "-->": "<--", "<--": "-->"}
    for flag, out in outs.items():
        got = {}
        with t.reading("diff table"):
            for row in table(out):
                a, b = row[0].split(" - ")
                cells = row[1:]
                if (a, b) not in pairs:
                    a, b, cells = b, a, [flip[x] for x in cells]
                t.check((a, b) not in got, f"{a} - {b} is listed twice")
                got[(a, b)] = cells
        want = {}
        for p in pairs:
            cells = [x[p] for x in cols]
            if any(cells) and not (flag and len(set(cells)) == 1):
                want[p] = cells
        t.equal(got, want, f"table of diff {flag} {' '.join(args)} (cells as seen from the row's label)")
    same = [len({x[p] for x in cols}) == 1 for p in pairs if any(x[p] for x in cols)]
    t.nontrivial(any(same) and not all(same))
    t.label("reversed edges", any({"-->", "<--"} <= {x[p] for x in cols} for p in pairs))


SUBS = [
    Gen("diff", cases, diff, quick=1440, thorough=10000),
]
