"""Reference model of the graph queries (parsed by the analyser, never executed)."""
from causy.graph import GraphError, Node


def live(self, u, v):
    return u in self.edges and v in self.edges[u] and not self.edges[u][v].deleted


def directed_edge_is_soft_deleted(self, u, v):
    return u in self.edges and v in self.edges[u] and self.edges[u][v].deleted


def directed_edge_exists(self, u, v):
    return u in self.nodes and v in self.nodes and live(self, u, v)


def edge_exists(self, u, v):
    return u in self.nodes and v in self.nodes and (live(self, u, v) or live(self, v, u))


def undirected_edge_exists(self, u, v):
    return directed_edge_exists(self, u, v) and directed_edge_exists(self, v, u)


def only_directed_edge_exists(self, u, v):
    return directed_edge_exists(self, u, v) and not directed_edge_exists(self, v, u)


def edge_of_type_exists(self, u, v, edge_type):
    return directed_edge_exists(self, u, v) and self.edges[u][v].edge_type == edge_type


def edge_value(self, u, v):
    return self.edges[u][v].metadata if directed_edge_exists(self, u, v) else None


def edge_type(self, u, v):
    return self.edges[u][v].edge_type if directed_edge_exists(self, u, v) else None


def parents_of_node(self, u):
    return [self.nodes[n] for n in self._reverse_edges.get(u, {}) if live(self, n, u)]


def retrieve_edges(self):
    return [self.edges[u][v] for u in self.edges for v in self.edges[u] if live(self, u, v)]


def get_siblings(self, v):
    return {n for n in self.nodes if n != v and undirected_edge_exists(self, v, n)}


def get_edge(self, u, v):
    if not (u in self.edges and v in self.edges[u]):
        raise GraphError()
    return self.edges[u][v]


def node_by_id(self, id_):
    return self.nodes[id_] if id_ in self.nodes else None


def purge_soft_deleted_edges(self):
    for u in self.edges:
        for v in self.edges[u]:
            if self.edges[u][v].deleted:
                self.remove_directed_edge(self.nodes[u], self.nodes[v])


def module_retrieve_edges(graph):
    return [(u, v) for u in graph.edges for v in graph.edges[u] if not graph.edges[u][v].deleted]


def retrieve_edge_history(self, u, v, action):
    if action is None:
        return self.edge_history[(u, v)]
    if (u, v) not in self.edge_history:
        return []
    return [i for i in self.edge_history[(u, v)] if i.action == action]
