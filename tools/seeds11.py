from mkseed import make
G, W, GM, S = "causy/graph.py", "causy/workspaces/cli.py", "causy/graph_model.py", "causy/serialization.py"
make("c28-second-data", "C28", [(GM, "        self.graph = graph\n        return graph", "        if self.graph is None or not self.graph.nodes:\n            self.graph = graph\n        return graph")],
 "a model that is given data a second time", "the model keeps the graph of the first data",
'''
if __name__ == "__main__":
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm
    m = graph_model_factory(Algorithm(pipeline_steps=[], edge_types=[], extensions=[], name="x"))()
    m.create_graph_from_data({"a": [1.0, 2.0]})
    g = m.create_graph_from_data({"b": [1.0, 2.0]})
    assert list(m.graph.nodes) == ["b"], list(m.graph.nodes)
''')
make("c22-cached-file", "C22", [(S, "def load_algorithm_by_reference(", "@functools.lru_cache(maxsize=None)\ndef load_algorithm_by_reference("), (S, "import copy\nimport datetime\n", "import copy\nimport datetime\nimport functools\n")],
 "loading the same algorithm twice and changing the first one", "the second one is the same object, so it has the changes too",
'''
if __name__ == "__main__":
    from causy.serialization import load_algorithm_by_reference
    from causy.models import AlgorithmReferenceType
    a = load_algorithm_by_reference(AlgorithmReferenceType.NAME, "PC")
    a.pipeline_steps.clear()
    assert load_algorithm_by_reference(AlgorithmReferenceType.NAME, "PC").pipeline_steps
''')
