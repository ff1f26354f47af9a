from mkseed import make
from seeds2 import STEP
G = "causy/generators.py"
make("c13-max-above-size", "C13", [(G, """        # if start is higher than number of variables, we set it to the amount of variables
        if stop > len(graph.nodes) + 1:
            stop = len(graph.nodes) + 1
""", """        # if start is higher than number of variables, we set it to the amount of variables
        if stop > len(graph.nodes) + 1:
            stop = max(start, len(graph.nodes))
""")], "a max size above the number of nodes of the graph", "the combination of all nodes is not yielded",
STEP + '''
from causy.generators import AllCombinationsGenerator
from causy.models import ComparisonSettings
g = GraphManager()
ns = [g.add_node(s, [1.0, 2.0], id_=s) for s in "abc"]
out = list(AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=6)).generate(g, None))
assert len(out) == 4, out
''')
make("c13-last-chunk", "C13", [(G, "for i in range(0, len(edges), self.chunk_size):", "for i in range(0, len(edges) - len(edges) % self.chunk_size or len(edges), self.chunk_size):")],
 "a chunked edge generator on a graph whose number of edges is above the chunk size and no multiple of it", "the edges of the last incomplete chunk are never yielded",
STEP + '''
from causy.generators import PairsWithEdgesInBetweenGenerator
g = GraphManager()
ns = [g.add_node(s, [1.0, 2.0], id_=s) for s in "abcd"]
for v in ns[1:]: g.add_directed_edge(ns[0], v, {})
out = [e for c in PairsWithEdgesInBetweenGenerator(chunked=True, chunk_size=2).generate(g, None) for e in c]
assert len(out) == 3, out
''')
make("c07-centre-in-place", "C07", [("causy/common_pipeline_steps/calculation.py", '''        cov_xy = torch.mean((x_val - x_val.mean()) * (y_val - y_val.mean()))
''', '''        x_val -= x_val.mean()
        y_val -= y_val.mean()
        cov_xy = torch.mean(x_val * y_val)
''')], "looking at the data of the nodes after correlations were computed on data with a mean other than zero", "computing correlations changes the data stored in the nodes",
STEP + '''
import torch
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
g = GraphManager()
a, b = [g.add_node(s, [1.0, 2.0, 4.0 + i], id_=s) for i, s in enumerate("ab")]
g.add_edge(a, b, {})
before = [float(x) for x in a.values]
CalculatePearsonCorrelations().process(["a", "b"], g)
assert [float(x) for x in g.nodes["a"].values] == before, g.nodes["a"].values
''')
make("c07-generator-remembers-size", "C07", [(G, """        # if max is AS_MANY_AS_FIELDS, we set it to number of variables + 1
        if self.comparison_settings.max == AS_MANY_AS_FIELDS:
            stop = len(graph.nodes) + 1
        else:
            stop = self.comparison_settings.max + 1
""", """        # if max is AS_MANY_AS_FIELDS, we set it to number of variables + 1
        if self.comparison_settings.max == AS_MANY_AS_FIELDS:
            self.comparison_settings.max = len(graph.nodes)
        stop = self.comparison_settings.max + 1
""")], "the same generator used first on a small and then on a larger graph", "the generator keeps the size of the first graph, so larger combinations are missing on the second",
STEP + '''
from causy.generators import AllCombinationsGenerator
from causy.models import ComparisonSettings
gen = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2))
n = []
for names in ("ab", "abcd"):
    g = GraphManager()
    for s in names: g.add_node(s, [1.0, 2.0], id_=s)
    n.append(len(list(gen.generate(g, None))))
assert n == [1, 11], n
''')
