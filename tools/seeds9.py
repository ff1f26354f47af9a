from mkseed import make
F = "causy/sample_generator.py"
SAMP = '''
import random, torch
from causy.sample_generator import IIDSampleGenerator, TimeseriesSampleGenerator, SampleEdge, NodeReference as R, TimeAwareNodeReference as TR
'''
make("c29-zero-weight", "C29", [(F, """        for edge in self._edges:
            graph.add_directed_edge(
                graph.nodes[edge.from_node.node],""", """        for edge in self._edges:
            if not edge.value:
                continue
            graph.add_directed_edge(
                graph.nodes[edge.from_node.node],""")],
 "an edge with weight zero", "the edge is missing in the graph",
SAMP + '''
g = IIDSampleGenerator(edges=[SampleEdge(R("c"), R("b"), 2.0), SampleEdge(R("b"), R("a"))], random=lambda: 1.0)
_, graph = g.generate(2)
assert graph.directed_edge_exists(graph.nodes["b"], graph.nodes["a"])
''')
make("c29-lag-edge", "C29", [(F, "                if t - abs(edge.from_node.point_in_time) < 0:", "                if t < self._longest_lag:")],
 "a time series with edges of different lags", "edges with a short lag are missing at the first steps of the graph",
SAMP + '''
g = TimeseriesSampleGenerator(edges=[SampleEdge(TR("X", -1), TR("X"), 0.5), SampleEdge(TR("X", -2), TR("Y"), 0.5)], random=lambda: 1.0)
_, graph = g.generate(4)
assert graph.directed_edge_exists(graph.nodes["X-t0"], graph.nodes["X-t1"])
assert graph.directed_edge_exists(graph.nodes["X-t0"], graph.nodes["Y-t2"])
''')
make("c29-stationary", "C29", [(F, '''        matrix[: n // self._longest_lag, : n // self._longest_lag] = torch.eye(
            n // self._longest_lag
        )''', '''        matrix[:, :] = torch.eye(n)''')],
 "a time series with a lag of two or more steps", "the variance of the first values is too large",
SAMP + '''
g = TimeseriesSampleGenerator(edges=[SampleEdge(TR("X", -1), TR("X"), 0.3), SampleEdge(TR("X", -2), TR("X"), 0.4)], random=lambda: 1.0)
g._initial_distribution_fn = lambda x: x
sd = float(g._calculate_initial_values()["X"])
p1, p2 = 0.3, 0.4
want = ((1 - p2) / ((1 + p2) * ((1 - p2) ** 2 - p1 ** 2))) ** 0.5
assert abs(sd - want) < 1e-3, (sd, want)
''')
