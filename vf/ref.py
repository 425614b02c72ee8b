"""Reference models, written from textbook definitions and independent of causy's code.

A mixed graph on nodes 0..n-1 is a set of ordered pairs `arcs`; (i,j) and (j,i) both present means
an undirected edge i - j, only (i,j) means i -> j.
"""
import itertools
import math


# ---------------------------------------------------------------- mixed graphs
class Mixed:
    def __init__(self, n, arcs=()):
        self.n, self.a = n, set(map(tuple, arcs))

    def adj(self, i, j):
        return (i, j) in self.a or (j, i) in self.a

    def directed(self, i, j):
        return (i, j) in self.a and (j, i) not in self.a

    def undirected(self, i, j):
        return (i, j) in self.a and (j, i) in self.a

    def neighbours(self, i):
        return [j for j in range(self.n) if self.adj(i, j)]

    def skeleton(self):
        return {frozenset(p) for p in self.a}

    def descendants(self, i):
        """i and everything reachable along strictly directed edges"""
        seen, todo = {i}, [i]
        while todo:
            x = todo.pop()
            for j in range(self.n):
                if self.directed(x, j) and j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    def simple_paths(self, u, v, step):
        """all simple paths (lists of nodes) from u to v whose consecutive nodes satisfy step"""
        out = []

        def rec(p):
            if p[-1] == v:
                out.append(list(p))
                return
            for j in range(self.n):
                if j not in p and step(p[-1], j):
                    rec(p + [j])

        rec([u])
        return out


def is_acyclic(n, dag):
    dag = set(dag)
    left = set(range(n))
    while left:
        src = [i for i in left if not any((j, i) in dag for j in left)]
        if not src:
            return False
        left -= set(src)
    return True


def ancestors_of_set(n, dag, s):
    seen, todo = set(s), list(s)
    while todo:
        x = todo.pop()
        for (a, b) in dag:
            if b == x and a not in seen:
                seen.add(a)
                todo.append(a)
    return seen


def d_separated(n, dag, u, v, cond):
    """d-separation in a DAG by the moralised ancestral graph (Lauritzen) - no path enumeration."""
    dag = set(dag)
    anc = ancestors_of_set(n, dag, {u, v} | set(cond))
    und = {i: set() for i in anc}
    for (a, b) in dag:
        if a in anc and b in anc:
            und[a].add(b)
            und[b].add(a)
    for c in anc:
        ps = [a for (a, b) in dag if b == c and a in anc]
        for x, y in itertools.combinations(ps, 2):
            und[x].add(y)
            und[y].add(x)
    seen, todo = {u}, [u]
    while todo:
        x = todo.pop()
        if x == v:
            return False
        for j in und[x]:
            if j not in seen and j not in cond:
                seen.add(j)
                todo.append(j)
    return True


def v_structures(n, dag):
    """unshielded colliders of a DAG"""
    dag = set(dag)
    out = set()
    for c in range(n):
        ps = sorted(a for (a, b) in dag if b == c)
        for x, y in itertools.combinations(ps, 2):
            if (x, y) not in dag and (y, x) not in dag:
                out.add((x, c, y))
    return out


def orientations(n, skeleton, forced=()):
    """all acyclic orientations of a skeleton containing the forced arcs (depth-first with pruning)"""
    forced = set(forced)
    edges = sorted(tuple(sorted(e)) for e in skeleton)
    out = []

    def reaches(arcs, s, t):
        seen, todo = {s}, [s]
        while todo:
            x = todo.pop()
            if x == t:
                return True
            for (a, b) in arcs:
                if a == x and b not in seen:
                    seen.add(b)
                    todo.append(b)
        return False

    def rec(k, arcs):
        if k == len(edges):
            out.append(frozenset(arcs))
            return
        i, j = edges[k]
        for (a, b) in ((i, j), (j, i)):
            if (b, a) in forced:
                continue
            if reaches(arcs, b, a):
                continue
            arcs.add((a, b))
            rec(k + 1, arcs)
            arcs.discard((a, b))

    rec(0, set())
    return out


def equivalence_class(n, dag, forced=()):
    """all DAGs Markov equivalent to dag (same skeleton and v-structures) containing forced arcs"""
    skel = {frozenset(e) for e in dag}
    vs = v_structures(n, dag)
    must = set(forced)
    for (x, c, y) in vs:
        must |= {(x, c), (y, c)}
    return [o for o in orientations(n, skel, must) if v_structures(n, o) == vs]


def union_graph(dags):
    """the (M)PDAG of a set of DAGs: an edge is directed iff all members agree"""
    arcs = set()
    for d in dags:
        arcs |= set(d)
    return frozenset(arcs)


def cpdag(n, dag):
    return union_graph(equivalence_class(n, dag))


def all_dags(n):
    pairs = list(itertools.combinations(range(n), 2))
    for choice in itertools.product((0, 1, 2), repeat=len(pairs)):
        d = set()
        for (i, j), c in zip(pairs, choice):
            if c == 1:
                d.add((i, j))
            elif c == 2:
                d.add((j, i))
        if is_acyclic(n, d):
            yield frozenset(d)


# ---------------------------------------------------------------- statistics
def norm_cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def fisher_p(r, n, k):
    """two-sided p-value of Fisher's z test for a (partial) correlation r, n samples, k controls"""
    if abs(r) >= 1:
        return 0.0
    z = abs(math.atanh(r)) * math.sqrt(n - k - 3)
    return math.erfc(z / math.sqrt(2))


def topological(n, dag):
    out = []
    while len(out) < n:
        for j in range(n):
            if j not in out and all(i in out for (i, k) in dag if k == j):
                out.append(j)
                break
        else:
            raise ValueError("cyclic")
    return out
