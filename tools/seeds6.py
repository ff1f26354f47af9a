from mkseed import make
from seeds2 import STEP
G = "causy/graph.py"; V = "causy/variables.py"; D = "causy/data_loader.py"; M = "causy/graph_model.py"
ROWS = '''
import json, os, tempfile
from causy.graph_model import graph_model_factory
from causy.models import Algorithm
from causy.data_loader import DataLoaderReference, load_data_loader
A = Algorithm(name="x", pipeline_steps=[], edge_types=[], extensions=[], variables=[])
def nodes(data):
    m = graph_model_factory(A)()
    m.create_graph_from_data(data)
    return [(n.id, n.name, n.values.tolist()) for n in m.graph.nodes.values()]
'''
make("c04-duplicate-other-name", "C04", [(G, '''        if id_ in self.nodes:
            raise ValueError(f"Node with id {id_} already exists")
''', '''        if id_ in self.nodes and self.nodes[id_].name == name:
            raise ValueError(f"Node with id {id_} already exists")
''')], "a second node with the id of a first one and another name", "the first node is replaced silently",
STEP + '''
g = GraphManager()
a = g.add_node("a", [1.0, 2.0], id_="n")
try:
    g.add_node("b", [3.0, 4.0], id_="n")
except ValueError:
    pass
assert g.node_by_id("n").name == "a"
''')
make("c04-single-precision", "C04", [(G, "tensor_values = torch.tensor(values, dtype=torch.float64)", "tensor_values = torch.tensor(values).double()")],
 "values that need more than 24 bits", "values lose precision while nodes are created",
STEP + '''
g = GraphManager()
a = g.add_node("a", [16777217.25, 0.1])
assert a.values.tolist() == [16777217.25, 0.1], a.values
assert a.values.dtype == torch.float64
''' .replace("g = Graph", "import torch\ng = Graph", 1))
make("c21-default-choice", "C21", [(V, '''        if self.choices and value not in self.choices:
''', '''        if self.choices and value not in self.choices and value != self.value:
''')], "a default that is none of the choices", "a variable with an invalid default is accepted",
'''
from causy.variables import *
assert not StringVariable(name="s", value="a", choices=["a", "b"]).is_valid_value("c")
try:
    StringVariable(name="s", value="c", choices=["a", "b"])
    assert False, "accepted"
except ValueError:
    pass
''')
make("c21-inner-loop", "C21", [(V, '''            pipeline_step.pipeline_steps = (
                resolve_variables_to_algorithm_for_pipeline_steps(
                    pipeline_step.pipeline_steps, variables
                )
            )
''', '''            pipeline_step.pipeline_steps = [
                resolve_variable_to_object(sub_step, variables)
                for sub_step in pipeline_step.pipeline_steps
            ]
''')], "a step in a loop inside of a loop that refers to a variable", "the reference is not replaced and the step fails when it runs",
'''
from causy.variables import *
from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest
from causy.common_pipeline_steps.logic import Loop
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
s = CorrelationCoefficientTest(threshold=VariableReference(name="t"))
l = Loop(pipeline_steps=[Loop(pipeline_steps=[s], exit_condition=ExitOnNoActions())], exit_condition=ExitOnNoActions())
l, = resolve_variables_to_algorithm_for_pipeline_steps([l], {"t": 0.5})
assert l.pipeline_steps[0].pipeline_steps[0].threshold == 0.5
''')
make("c28-jsonl-repeated-row", "C28", [(D, '''            for line in f:
                yield json.loads(line)
''', '''            previous = None
            for line in f:
                if line == previous:
                    continue
                previous = line
                yield json.loads(line)
''')], "a jsonl file with two equal rows in a row", "a row is dropped, so that the sample is smaller than the data",
ROWS + '''
rows = [{"a": 1, "b": 2}, {"a": 1, "b": 2}, {"a": 3, "b": 1}]
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.jsonl")
    open(f, "w").write("".join(json.dumps(r) + chr(10) for r in rows))
    l = load_data_loader(DataLoaderReference(type="jsonl", reference=f))
    assert nodes(l) == nodes(rows), nodes(l)
''')
make("c28-rows-by-position", "C28", [(M, '''        for row in data:
            for key in keys:
                nodes[key].append(row[key])
''', '''        for row in data:
            for key, value in zip(keys, row.values()):
                nodes[key].append(value)
''')], "rows whose keys are in different orders", "values are assigned to the wrong variable",
ROWS + '''
assert nodes([{"a": 1, "b": 2}, {"b": 4, "a": 3}]) == [("a", "a", [1.0, 3.0]), ("b", "b", [2.0, 4.0])]
''')
make("c28-column-order", "C28", [(M, '''        for key, values in sorted(data.items()):
''', '''        for key, values in sorted(data.items(), key=lambda item: item[0].lower()):
''')], "variable names in upper and lower case", "columns give the nodes in another order than rows",
ROWS + '''
assert [n[0] for n in nodes({"b": [1, 2], "B": [2, 3], "a": [1, 1], "C": [0, 1]})] == ["B", "C", "a", "b"]
assert [n[0] for n in nodes([{"b": 1, "B": 2, "a": 1, "C": 0}])] == ["B", "C", "a", "b"]
''')
