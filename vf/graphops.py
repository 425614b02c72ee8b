"""Operation histories on the graph store and their reference interpretation (a map from ordered
node pairs to (value, type), plus the soft-deleted flag and a graveyard of removed entries)."""
import itertools

from hypothesis import strategies as st

TYPES = ["DIRECTED", "UNDIRECTED", "BIDIRECTED"]


def edge_type(name):
    from causy.edge_types import DirectedEdge, UndirectedEdge, BiDirectedEdge

    return {"DIRECTED": DirectedEdge, "UNDIRECTED": UndirectedEdge, "BIDIRECTED": BiDirectedEdge}[name]()


def metas():
    return st.dictionaries(
        st.sampled_from(["correlation", "p", "w", "note"]),
        st.one_of(st.integers(-5, 5), st.sampled_from([0.5, -0.25, 1e-9, "s", ""])),
        max_size=2,
    )


def ops_strategy(soft):
    # node index n is the foreign node (never added to this graph)
    def build(n):
        node = st.one_of(*([st.integers(0, n - 1)] * 12 + [st.integers(0, n)]))
        t = st.one_of(st.none(), st.sampled_from(TYPES))
        kinds = [
            st.tuples(st.just("add_edge"), node, node, metas(), t),
            st.tuples(st.just("add_edge"), node, node, metas(), t),
            st.tuples(st.just("add_directed_edge"), node, node, metas(), t),
            st.tuples(st.just("add_directed_edge"), node, node, metas(), t),
            st.tuples(st.just("update_edge"), node, node, st.one_of(st.none(), metas()), t),
            st.tuples(st.just("update_directed_edge"), node, node, st.one_of(st.none(), metas()), t),
            st.tuples(st.just("remove_edge"), node, node, st.just(False)),
            st.tuples(st.just("remove_directed_edge"), node, node, st.just(False)),
            st.tuples(st.just("add_node"), st.integers(0, n + 2)),
        ]
        if soft:
            kinds += [
                st.tuples(st.just("remove_edge"), node, node, st.just(True)),
                st.tuples(st.just("remove_directed_edge"), node, node, st.just(True)),
                st.tuples(st.just("remove_directed_edge"), node, node, st.just(True)),
                st.tuples(st.just("restore_edge"), node, node),
                st.tuples(st.just("restore_directed_edge"), node, node),
                st.tuples(st.just("purge")),
            ]
        op = st.one_of(*kinds)
        # two size regimes: Hypothesis' lists are short on average; the first alternative is what
        # shrinking moves to
        return st.one_of(st.lists(op, min_size=1, max_size=8), st.lists(op, min_size=12, max_size=28),
                         st.lists(op, min_size=12, max_size=28)).map(
            lambda o: {"n": n, "ops": [list(x) for x in o]}
        )

    return st.integers(2, 5).flatmap(build)


class Ref:
    """entries: (u,v) -> [meta, type, soft_deleted];  grave: (u,v) -> (meta, type)"""

    def __init__(self, ids):
        self.ids = list(ids)
        self.second = {i: 1.0 for i in ids}  # second value of each node
        self.e = {}
        self.grave = {}

    def live(self, u, v):
        return (u, v) in self.e and not self.e[(u, v)][2]

    def apply(self, op):
        """returns 'ok', 'reject' (must raise and leave all as it was) or 'skip' (unspecified)"""
        k = op[0]
        if k == "purge":
            for p in [p for p in self.e if self.e[p][2]]:
                m, t, _ = self.e.pop(p)
                self.grave[p] = (m, t)
            return "ok"
        if k == "add_node":
            nid = op[1]
            if nid in self.ids:
                return "reject"
            self.ids.append(nid)
            self.second[nid] = 2.0
            return "ok"
        u, v = op[1], op[2]
        if u not in self.ids or v not in self.ids:
            return "reject"
        if k in ("add_edge", "add_directed_edge"):
            if u == v:
                return "reject"
            default = "UNDIRECTED" if k == "add_edge" else "DIRECTED"
            self.e[(u, v)] = [op[3], op[4] or default, False]
            if k == "add_edge":
                self.e[(v, u)] = [op[3], op[4] or default, False]
            return "ok"
        if k in ("update_edge", "update_directed_edge"):
            ps = [(u, v)] + ([(v, u)] if k == "update_edge" else [])
            if any(p not in self.e for p in ps):
                return "reject"
            if any(self.e[p][2] for p in ps):
                return "skip"  # updating a soft-deleted edge is not specified
            for p in ps:
                if op[3] is not None:
                    self.e[p][0] = op[3]
                if op[4] is not None:
                    self.e[p][1] = op[4]
            return "ok"
        if k in ("remove_edge", "remove_directed_edge"):
            for p in [(u, v)] + ([(v, u)] if k == "remove_edge" else []):
                if p in self.e:
                    if op[3]:
                        self.e[p][2] = True
                    else:
                        m, t, _ = self.e.pop(p)
                        self.grave[p] = (m, t)
            return "ok"
        if k in ("restore_edge", "restore_directed_edge"):
            ps = [(u, v)] + ([(v, u)] if k == "restore_edge" else [])
            can = [p for p in ps if p in self.e or p in self.grave]
            if not can:
                return "reject"
            for p in can:
                if p in self.e:
                    self.e[p][2] = False
                else:
                    m, t = self.grave.pop(p)
                    self.e[p] = [m, t, False]
            return "ok"
        raise AssertionError(k)


def nid(i):
    return f"n{i}"


class System:
    def __init__(self, n):
        from causy.graph import GraphManager, Graph
        import causy.causal_discovery.constraint.algorithms  # noqa: installs the edge-type mixins

        self.g = GraphManager(Graph)
        other = GraphManager(Graph)
        self.objs = {}
        for i in range(n):
            self.objs[i] = self.g.add_node(nid(i), [float(i), 1.0], id_=nid(i))
        self.foreign = other.add_node("foreign", [0.0, 1.0], id_="foreign")

    def node(self, i):
        return self.objs.get(i, self.foreign)

    def apply(self, op):
        g, k = self.g, op[0]
        if k == "purge":
            return g.purge_soft_deleted_edges()
        if k == "add_node":
            node = g.add_node(nid(op[1]) if op[1] not in self.objs else "again", [float(op[1]), 2.0], id_=nid(op[1]))
            self.objs[op[1]] = node
            return
        u, v = self.node(op[1]), self.node(op[2])
        if k in ("add_edge", "add_directed_edge"):
            kw = {} if op[4] is None else {"edge_type": edge_type(op[4])}
            return getattr(g, k)(u, v, dict(op[3]), **kw)
        if k in ("update_edge", "update_directed_edge"):
            return getattr(g, k)(
                u, v, metadata=None if op[3] is None else dict(op[3]),
                edge_type=None if op[4] is None else edge_type(op[4]))
        if k in ("remove_edge", "remove_directed_edge"):
            return getattr(g, k)(u, v, soft_delete=op[3])
        return getattr(g, k)(u, v)


def compare(t, s, r, ctx):
    """every query of the store against the reference"""
    from causy.graph import GraphError
    from causy.graph_utils import retrieve_edges

    g = s.g
    order = [nid(i) for i in r.ids]
    with t.reading("node table"):
        t.equal(list(g.nodes.keys()), order, f"{ctx}: node ids in insertion order")
        for i in r.ids:
            n = g.node_by_id(nid(i))
            t.equal((n.id, n.name, n.values.tolist(), g.nodes[nid(i)].id), (nid(i), nid(i), [float(i), r.second[i]], nid(i)),
                    f"{ctx}: node_by_id (id, name, values)")
        t.equal(g.node_by_id("foreign"), None, f"{ctx}: node_by_id of an unknown id")
    for gi, (name, view) in enumerate((("store", g), ("graph seen by pipeline steps", g.graph))):
        for i, j in itertools.product(r.ids, r.ids):
            a, b = (s.objs[i], s.objs[j]) if (i + j + gi) % 2 == 0 else (nid(i), nid(j))
            w = f"{ctx}: {name}: "
            p = f"({nid(i)},{nid(j)})"
            lij, lji = r.live(i, j), r.live(j, i)
            t.equal(view.directed_edge_exists(a, b), lij, w + "directed_edge_exists" + p)
            t.equal(view.edge_exists(a, b), lij or lji, w + "edge_exists" + p)
            t.equal(view.undirected_edge_exists(a, b), lij and lji, w + "undirected_edge_exists" + p)
            if gi == 1:
                t.equal(view.only_directed_edge_exists(a, b), lij and not lji,
                        w + "only_directed_edge_exists" + p)
            t.equal(bool(view.directed_edge_is_soft_deleted(a, b)), (i, j) in r.e and r.e[(i, j)][2],
                    w + "directed_edge_is_soft_deleted" + p)
            if lij:
                m, ty, _ = r.e[(i, j)]
                t.equal(view.edge_value(a, b), m, w + "edge_value" + p)
                t.equal(view.edge_type(a, b).name, ty, w + "edge_type" + p)
            else:
                t.equal(view.edge_value(a, b), None, w + "edge_value" + p)
                t.equal(view.edge_type(a, b), None, w + "edge_type" + p)
            for ty in TYPES:
                t.equal(view.edge_of_type_exists(a, b, edge_type(ty)), lij and r.e[(i, j)][1] == ty,
                        w + f"edge_of_type_exists {ty}" + p)
            if gi == 0:
                if lij:
                    e = g.get_edge(s.objs[i], s.objs[j])
                    t.equal((e.u.id, e.v.id, e.metadata, e.edge_type.name),
                            (nid(i), nid(j), r.e[(i, j)][0], r.e[(i, j)][1]), w + "get_edge" + p)
                elif (i, j) not in r.e:
                    t.raises(GraphError, lambda: g.get_edge(s.objs[i], s.objs[j]), w + "get_edge" + p)
        for j in r.ids:
            a = s.objs[j] if (j + gi) % 2 else nid(j)
            got = [x.id for x in view.parents_of_node(a)]
            t.equal(sorted(got), sorted(nid(i) for i in r.ids if r.live(i, j)), f"{ctx}: {name}: parents of {nid(j)}")
            got = sorted(x if isinstance(x, str) else x.id for x in view.get_siblings(nid(j)))
            t.equal(got, sorted(nid(i) for i in r.ids if r.live(i, j) and r.live(j, i)),
                    f"{ctx}: {name}: siblings of {nid(j)}")
        got = sorted((e.u.id, e.v.id, e.edge_type.name, sorted(map(str, e.metadata.items())))
                     for e in view.retrieve_edges())
        want = sorted((nid(i), nid(j), x[1], sorted(map(str, x[0].items())))
                      for (i, j), x in r.e.items() if not x[2])
        t.equal(got, want, f"{ctx}: {name}: listed edges")
    t.equal(sorted(retrieve_edges(g)), sorted((nid(i), nid(j)) for (i, j), x in r.e.items() if not x[2]),
            f"{ctx}: edge list helper")
    for x in (("foreign", nid(0)), (nid(0), "foreign"), (s.foreign, s.objs[0])):
        t.equal(g.edge_exists(*x), False, f"{ctx}: edge_exists with an unknown node")
        t.equal(g.directed_edge_exists(*x), False, f"{ctx}: directed_edge_exists with an unknown node")


def run_history(case, t):
    from vf.core import Violation

    s, r = System(case["n"]), Ref(range(case["n"]))
    import copy

    rejected = changed = 0
    for k, op in enumerate(case["ops"]):
        ctx = f"after op {k} {op}"
        before = copy.deepcopy((r.ids, r.e, r.grave))
        verdict = r.apply(op)
        if verdict == "skip":
            # whether (and how) a soft-deleted edge can be updated is not specified, but it stays invisible: the history
            # ends here with the edge's new value unknown
            r.ids, r.e, r.grave = before
            t.label("update of a soft-deleted edge")
            try:
                s.apply(op)
            except Exception:
                pass
            ps = [(op[1], op[2])] + ([(op[2], op[1])] if op[0] == "update_edge" else [])
            for i, j in ps:
                if r.e[(i, j)][2]:
                    for view in (s.g, s.g.graph):
                        t.equal((view.directed_edge_exists(nid(i), nid(j)), bool(view.directed_edge_is_soft_deleted(nid(i), nid(j))),
                                 view.edge_value(nid(i), nid(j))), (False, True, None), f"{ctx}: updated while soft-deleted: (exists, soft-deleted, value)")
            break
        if verdict == "reject":
            rejected += 1
            try:
                s.apply(op)
            except Exception:
                pass
            else:
                raise Violation(f"op {k} {op} must be rejected but was accepted")
        else:
            s.apply(op)
            changed += 1
        t.label(f"{op[0]}{':soft' if op[0].startswith('remove') and op[3] else ''}:{verdict}")
        compare(t, s, r, ctx)
    t.label("soft-deleted present at the end", any(x[2] for x in r.e.values()))
    t.nontrivial(changed >= 3 and len(r.e) > 0)
    t.label("one-directional edge at the end",
            any((j, i) not in r.e for (i, j) in r.e))
