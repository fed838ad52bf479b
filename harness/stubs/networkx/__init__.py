"""Graph and find_cliques with networkx semantics (undirected; isolated nodes are cliques of one)."""
import numpy as np


class Graph:
    def __init__(self, data=None):
        self.adj = {}
        if data is not None:
            a = np.asarray(data)
            for i in range(a.shape[0]):
                self.adj.setdefault(i, set())
            for i, j in zip(*np.nonzero(a)):
                self.add_edge(int(i), int(j))

    def add_node(self, n):
        self.adj.setdefault(n, set())

    def add_nodes_from(self, ns):
        for n in ns:
            self.add_node(n)

    def add_edge(self, i, j):
        self.adj.setdefault(i, set()).add(j)
        self.adj.setdefault(j, set()).add(i)

    def add_edges_from(self, es):
        for i, j in es:
            self.add_edge(i, j)


def from_numpy_array(a):
    return Graph(a)


def find_cliques(g):
    adj = {u: {v for v in g.adj[u] if v != u} for u in g.adj}

    def bk(r, p, x):
        if not p and not x:
            yield sorted(r)
            return
        for v in sorted(p):
            yield from bk(r | {v}, p & adj[v], x & adj[v])
            p = p - {v}
            x = x | {v}
    yield from bk(set(), set(adj), set())
