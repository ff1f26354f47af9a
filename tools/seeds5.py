from mkseed import make
from seeds2 import STEP
from seeds3 import NUM
G = "causy/graph.py"
make("c12-t-df", "C12", [("causy/math_utils.py", "deg_of_freedom = sample_size - 2 - nb_of_control_vars", "deg_of_freedom = sample_size - 2 - min(nb_of_control_vars, 1)")],
 "a test given two other nodes whose p value lies near the threshold, on few samples", "the extended test uses the wrong distribution for more than one conditioning node, so it keeps an edge whose p value exceeds the threshold",
 NUM + '''
torch.manual_seed(3)
n = 9
done = 0
for k in range(3000):
    d = torch.randn(4, n, dtype=torch.float64); d[0] += d[2]; d[1] += d[2] + d[3]
    d -= d.mean(dim=1, keepdim=True)
    pr = torch.linalg.inv(torch.cov(d)); r = float(-pr[0, 1] / (pr[0, 0] * pr[1, 1]).sqrt())
    p = 2 * (1 - stats.t.cdf(abs(r) * math.sqrt((n - 4) / (1 - r * r)), n - 4))
    if not 0.02 < p < 0.3: continue
    g = GraphManager()
    ns = [g.add_node(s, v.tolist(), id_=s) for s, v in zip("abcd", d)]
    for i in range(4):
        for j in range(i): g.add_edge(ns[i], ns[j], {})
    res = ExtendedPartialCorrelationTestLinearRegression(threshold=p * 0.97).process(["a", "b", "c", "d"], g)
    assert res is not None and res.action == TestResultAction.REMOVE_EDGE_UNDIRECTED, (p, res)
    done += 1
    if done > 5: break
assert done
''')
make("c31-descendants-deleted", "C31", [(G, """            if self.directed_edge_exists(u, child) and not self.directed_edge_exists(
                child, u
            ):
""", """            if not self.directed_edge_exists(child, u):
""")], "a soft deleted edge on the way", "nodes behind a removed edge are reported as descendants",
STEP + '''
g = GraphManager()
a, b, c = [g.add_node(s, [1.0], id_=s) for s in "abc"]
g.add_directed_edge(a, b, {}); g.add_directed_edge(b, c, {})
g.remove_directed_edge(a, b, soft_delete=True)
assert {n.id for n in g.descendants_of_node(a)} == {"a"}, g.descendants_of_node(a)
''')
make("c31-shared-visited", "C31", [(G, """        # Backtrack: remove the current node from the path and visited set
        path.pop()
        visited.remove(u)
""", """        # Backtrack: remove the current node from the path (the target stays reachable)
        path.pop()
        if len(path) < 2 or u == v:
            visited.remove(u)
""")], "two paths that share a node at a different depth", "paths that reach a node by a second way are missing",
STEP + '''
g = GraphManager()
ns = [g.add_node(s, [1.0], id_=s) for s in "abcd"]
for i in range(4):
    for j in range(i): g.add_edge(ns[j], ns[i], {})
ps = [tuple(n.id for n in p) for p in g.all_paths_on_underlying_undirected_graph("a", "d")]
assert sorted(ps) == sorted([("a", "d"), ("a", "b", "d"), ("a", "c", "d"), ("a", "b", "c", "d"), ("a", "c", "b", "d")]), ps
''')
make("c17-noncollider-one-side", "C17", [(G, """                if not (
                    self.edge_of_type_exists(path[i - 1].id, path[i].id, DirectedEdge())
                    and self.edge_of_type_exists(
                        path[i + 1].id, path[i].id, DirectedEdge()
                    )
                ):
""", """                if not self.edge_of_type_exists(
                    path[i - 1].id, path[i].id, DirectedEdge()
                ) or self.edge_of_type_exists(
                    path[i].id, path[-1].id, DirectedEdge()
                ):
""")], "conditioning on a mediator that is not directly followed by the end of the path", "a chain blocked by a node of the conditioning set is treated as open",
STEP + '''
g = GraphManager()
a, b, c, d = [g.add_node(s, [1.0], id_=s) for s in "abcd"]
g.add_directed_edge(a, b, {}); g.add_directed_edge(b, c, {}); g.add_directed_edge(c, d, {})
assert g.are_nodes_d_separated_dag(a, d, [b]) is True
assert g.are_nodes_d_separated_dag(a, d, []) is False
''')
make("c17-children-only", "C17", [(G, "                for descendant in self.descendants_of_node(path[i]):\n", "                for descendant in [path[i]] + [\n                    n\n                    for n in self.descendants_of_node(path[i])\n                    if self.directed_edge_exists(path[i], n)\n                ]:\n")],
 "conditioning on a descendant of a collider that is not one of its children", "a collider opened by a distant descendant is treated as blocking",
STEP + '''
g = GraphManager()
a, b, c, d, e = [g.add_node(s, [1.0], id_=s) for s in "abcde"]
g.add_directed_edge(a, c, {}); g.add_directed_edge(b, c, {}); g.add_directed_edge(c, d, {}); g.add_directed_edge(d, e, {})
assert g.are_nodes_d_separated_dag(a, b, [e]) is False
assert g.are_nodes_d_separated_dag(a, b, []) is True
''')
