from mkseed import make
HEAD = '''
import torch
from causy.graph import GraphManager
from causy.models import TestResult, TestResultAction, Algorithm
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.graph_model import graph_model_factory
def graph(n=3):
    g = GraphManager()
    ns = [g.add_node("n%d" % i, [1.0, 2.0, 3.0], id_="n%d" % i) for i in range(n)]
    return g, ns
def model(**k):
    m = graph_model_factory(Algorithm(name="t", pipeline_steps=[], edge_types=[], **k))()
    m.graph, ns = graph()
    return m, ns
'''
make("c01-readd-stale-reverse", "C01", [("causy/graph.py", '''        edge = Edge(u=u, v=v, edge_type=edge_type, metadata=metadata)

        self.edges[u.id][v.id] = edge
        self._reverse_edges[v.id][u.id] = edge
''', '''        edge = Edge(u=u, v=v, edge_type=edge_type, metadata=metadata)

        self.edges[u.id][v.id] = edge
        self._reverse_edges[v.id].setdefault(u.id, edge)
''')], "a directed edge is added over an existing one", "the two indexes hold different edges for the same pair",
HEAD + '''
g, (a, b, c) = graph()
g.add_edge(a, b, {"x": 1})
g.add_directed_edge(a, b, {"x": 2})
assert g._reverse_edges[b.id][a.id].metadata == g.edges[a.id][b.id].metadata
''')
make("c02-type-of-deleted", "C02", [("causy/graph.py", '''        if not self.directed_edge_exists(u, v):
            return False

        if self.edges[u][v].edge_type != edge_type:
''', '''        if v not in self.edges.get(u, {}):
            return False

        if self.edges[u][v].edge_type != edge_type:
''')], "the edge is soft deleted and not purged yet", "an edge of a type is reported although it was removed",
HEAD + '''
g, (a, b, c) = graph()
g.add_directed_edge(a, b, {})
g.remove_directed_edge(a, b, soft_delete=True)
assert not g.edge_of_type_exists(a, b, DirectedEdge())
''')
make("c03-update-type-fallthrough", "C03", [("causy/graph.py", '''            obj = self._reverse_edges[u.id][v.id]
            obj.metadata = metadata
            self._reverse_edges[u.id][v.id] = obj

            obj = self._reverse_edges[v.id][u.id]
            obj.metadata = metadata
            self._reverse_edges[v.id][u.id] = obj

        if edge_type is not None:
            obj = self.edges[u.id][v.id]
            obj.edge_type = edge_type
            self.edges[u.id][v.id] = obj

            obj = self.edges[v.id][u.id]
''', '''            obj = self._reverse_edges[u.id][v.id]
            obj.metadata = metadata
            self._reverse_edges[u.id][v.id] = obj

            obj = self._reverse_edges[v.id][u.id]
            obj.metadata = metadata
            self._reverse_edges[v.id][u.id] = obj

        elif edge_type is not None:
            obj = self.edges[u.id][v.id]
            obj.edge_type = edge_type
            self.edges[u.id][v.id] = obj

            obj = self.edges[v.id][u.id]
''')], "one update that sets both the value and the type of an edge", "the type of the edge stays unchanged when value and type are updated together",
HEAD + '''
g, (a, b, c) = graph()
g.add_edge(a, b, {})
g.update_edge(a, b, metadata={"x": 1}, edge_type=DirectedEdge())
assert g.edge_value(a, b) == {"x": 1} and g.edge_type(a, b) == DirectedEdge()
''')
make("c05-restore-one-way", "C05", [("causy/graph_model.py", '''                    if self.graph.directed_edge_exists(i.u, i.v):
                        logger.debug(
                            f"Tried to restore edge {i.u.name} <-> {i.v.name}. But it does exist."
                        )
                        continue

                    self.graph.restore_directed_edge(i.u, i.v)
''', '''                    if self.graph.edge_exists(i.u, i.v):
                        logger.debug(
                            f"Tried to restore edge {i.u.name} <-> {i.v.name}. But it does exist."
                        )
                        continue

                    self.graph.restore_directed_edge(i.u, i.v)
''')], "one direction of an edge was removed and the other still exists when the removed one is to be restored", "the restore action is silently skipped",
HEAD + '''
m, (a, b, c) = model()
m.graph.add_edge(a, b, {})
m.graph.remove_directed_edge(a, b)
m._take_action([TestResult(u=a, v=b, action=TestResultAction.RESTORE_EDGE_DIRECTED, data={})])
assert m.graph.directed_edge_exists(a, b)
''')
make("c06-history-reverse", "C06", [("causy/graph_model.py", '''                    self.graph.update_edge(i.u, i.v, edge_type=i.edge_type)
                    self.graph.add_edge_history(i.u, i.v, i)
                    self.graph.add_edge_history(i.v, i.u, i)
''', '''                    self.graph.update_edge(i.u, i.v, edge_type=i.edge_type)
                    self.graph.add_edge_history(i.u, i.v, i)
''')], "a type change of an undirected edge, and the history read for the opposite direction", "the history of the second direction misses the change",
HEAD + '''
m, (a, b, c) = model()
m.graph.add_edge(a, b, {})
m._take_action([TestResult(u=a, v=b, action=TestResultAction.UPDATE_EDGE_TYPE, edge_type=DirectedEdge(), data={})])
assert len(m.graph.retrieve_edge_history(b, a)) == 1
''')
make("c11-hook-chain", "C11", [("causy/graph_model.py", '''        for hook in hooks:
            results = hook.execute(graph, results)
        return results
''', '''        rewritten = results
        for hook in hooks:
            rewritten = hook.execute(graph, results)
        return rewritten
''')], "two or more hooks that run before graph updates", "the second hook does not see what the first one returned, so the rewriting of the first is lost",
HEAD + '''
from causy.interfaces import GraphUpdateHook
class Drop(GraphUpdateHook):
    def execute(self, graph, updates): return [x for x in updates if x.u.id != "n0"]
class Same(GraphUpdateHook):
    def execute(self, graph, updates): return updates
m, (a, b, c) = model(pre_graph_update_hooks=[Drop(), Same()])
m.graph.add_edge(a, b, {}); m.graph.add_edge(b, c, {})
m._take_action([[TestResult(u=a, v=b, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={}), TestResult(u=b, v=c, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={})]])
assert m.graph.edge_exists(a, b) and not m.graph.edge_exists(b, c)
''')
