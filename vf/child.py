"""Runs jobs in a process of its own (own hash seed) and prints one JSON list of outcomes."""
import json
import random
import sys


def actions(model):
    from vf import data

    out = []
    for h in data.flat_history(model.graph.action_history):
        for a in h.actions:
            d = dict(a.data or {})
            # separating sets are sets: the order in which their members are listed means nothing
            if "separatedBy" in d:
                d["separatedBy"] = sorted(k.id for k in d["separatedBy"])
            if "triple" in d and len(d["triple"]) == 3 and isinstance(d["triple"][2], list):
                d["triple"] = [*d["triple"][:2], sorted(d["triple"][2], key=lambda k: k.id)]
            out.append([h.name, a.action.value, a.u.id, a.v.id, json.loads(json.dumps(d, default=lambda o: o.id))])
    return out


def edges(model):
    return [[e.u.id, e.v.id, e.edge_type.name, e.metadata] for e in model.graph.retrieve_edges()]


def job(j):
    import torch

    from vf import data

    random.seed(j.get("seed", 1))
    torch.manual_seed(j.get("seed", 1))
    if j["kind"] == "discover":
        c = j["case"]
        x = data.dataset(c)
        m = data.discover(c["algo"], x, {"threshold": c["thr"]}, c.get("sched", 0), keys=c["keys"])
        return {"edges": edges(m), "actions": actions(m), "hash": m.algorithm.hash()}
    from causy.sample_generator import IIDSampleGenerator, SampleEdge, NodeReference, TimeAwareNodeReference, \
        TimeseriesSampleGenerator

    if j["kind"] == "iid":
        g = IIDSampleGenerator([SampleEdge(NodeReference(a), NodeReference(b), w) for a, b, w in j["edges"]])
    else:
        g = TimeseriesSampleGenerator(
            [SampleEdge(TimeAwareNodeReference(a, -1), TimeAwareNodeReference(b), w) for a, b, w in j["edges"]])
    out, graph = g.generate(j["size"])
    return {"data": {k: v.tolist() for k, v in out.items()}, "nodes": list(graph.nodes)}


if __name__ == "__main__":
    jobs = json.load(open(sys.argv[1]))
    res = []
    for j in jobs:
        try:
            res.append(job(j))
        except Exception as e:  # noqa
            import traceback

            res.append({"error": type(e).__name__ + ": " + traceback.format_exc()[-800:]})
    json.dump(res, open(sys.argv[2], "w"))
