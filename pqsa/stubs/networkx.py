"""Model of the part of networkx used by the library: undirected graphs with edge data and maximum bipartite matchings."""


class Graph:
    def __init__(self):
        self.adj = {}

    def add_node(self, node, bipartite=None):
        if node not in self.adj:
            self.adj[node] = {}

    def add_nodes_from(self, nodes, bipartite=None):
        for node in nodes:
            self.add_node(node)

    def has_edge(self, a, b):
        return a in self.adj and b in self.adj[a]

    def add_edge(self, a, b, **data):
        self.add_node(a)
        self.add_node(b)
        if b not in self.adj[a]:
            edge = {}
            self.adj[a][b] = edge
            self.adj[b][a] = edge
        for key, value in data.items():
            self.adj[a][b][key] = value

    def add_edges_from(self, edges):
        for edge in edges:
            self.add_edge(edge[0], edge[1])

    def remove_edge(self, a, b):
        del self.adj[a][b]
        del self.adj[b][a]

    def neighbors(self, node):
        return list(self.adj[node])

    def nodes(self):
        return list(self.adj)

    def edges(self):
        return [(a, b) for a in self.adj for b in self.adj[a] if a <= b]

    def copy(self):
        g = Graph()
        for a in self.adj:
            g.add_node(a)
            for b in self.adj[a]:
                g.add_edge(a, b)
                for key, value in self.adj[a][b].items():
                    g.adj[a][b][key] = value
        return g

    def __getitem__(self, node):
        return self.adj[node]

    def __contains__(self, node):
        return node in self.adj


class _Bipartite:
    def _augment(self, graph, node, seen, match):
        for other in graph.adj[node]:
            if other in seen:
                continue
            seen.append(other)
            if other not in match or self._augment(graph, match[other], seen, match):
                match[other] = node
                match[node] = other
                return True
        return False

    def maximum_matching(self, graph, top_nodes=None):
        match = {}
        for node in top_nodes:
            self._augment(graph, node, [], match)
        return match

    def hopcroft_karp_matching(self, graph, top_nodes=None):
        return self.maximum_matching(graph, top_nodes)


bipartite = _Bipartite()
