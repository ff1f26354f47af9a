from mkseed import make
from seeds7 import WS
P = "causy/causal_discovery/constraint/algorithms/pc.py"; I = "causy/interfaces.py"; V = "causy/variables.py"; W = "causy/workspaces/cli.py"; E = "causy/edge_types.py"
make("c14-size", "C14", [(P, '''                generator=PairsWithNeighboursGenerator(
                    chunked=False,
                    shuffle_combinations=True,
                    comparison_settings=ComparisonSettings(
                        min=4, max=AS_MANY_AS_FIELDS
                    ),''', '''                generator=PairsWithNeighboursGenerator(
                    chunked=False,
                    shuffle_combinations=True,
                    comparison_settings=ComparisonSettings(
                        min=5, max=AS_MANY_AS_FIELDS
                    ),''')],
 "ParallelPC on variables that are independent given exactly two others", "conditioning sets of two nodes are only tested in the random sample",
'''
from causy.causal_discovery.constraint.algorithms.pc import ParallelPC
from causy.generators import PairsWithNeighboursGenerator
sizes = set()
for s in ParallelPC().algorithm.pipeline_steps:
    g = getattr(s, "generator", None)
    if type(g) is PairsWithNeighboursGenerator:
        sizes.add(g.comparison_settings.min)
assert sizes == {4}, sizes
''')
make("c14-threshold", "C14", [(P, '''                    ExtendedPartialCorrelationTestMatrix(
                        threshold=VariableReference(name="threshold"),
                    ),
''', '''                    ExtendedPartialCorrelationTestMatrix(
                        threshold=PC_DEFAULT_THRESHOLD,
                    ),
''')],
 "PCStable with a threshold given by the user", "the larger conditioning sets are tested with the default threshold",
'''
from causy.causal_discovery.constraint.algorithms.pc import PCStable
from causy.graph_model import graph_model_factory
m = graph_model_factory(PCStable()._original_algorithm, {"threshold": 0.2})()
for s in m.algorithm.pipeline_steps[1].pipeline_steps:
    assert s.threshold == 0.2, s
''')
make("c14-classic", "C14", [(P, '''                        min=3, max=AS_MANY_AS_FIELDS
''', '''                        min=3, max=4
''')],
 "PCClassic on variables that are independent given three or more others only", "larger conditioning sets are not tested",
'''
from causy.causal_discovery.constraint.algorithms.pc import PCClassic
assert PCClassic().algorithm.pipeline_steps[2].generator.comparison_settings.max == 0
''')
make("c20-loop", "C20", [(I, "if len(pipeline_steps) > 0 and isinstance(pipeline_steps[0], dict):", "if len(pipeline_steps) > 1 and isinstance(pipeline_steps[0], dict):")],
 "loading the definition of a loop with exactly one step", "the step stays a dictionary",
'''
from causy.common_pipeline_steps.logic import Loop
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest, NonColliderTest
from causy.graph_utils import load_pipeline_steps_by_definition
for steps in ([ColliderTest()], [ColliderTest(), NonColliderTest()]):
    l = Loop(pipeline_steps=steps, exit_condition=ExitOnNoActions())
    m, = load_pipeline_steps_by_definition([l.model_dump()])
    assert [type(x) for x in m.pipeline_steps] == [type(x) for x in steps]
''')
make("c20-shuffle", "C20", [(I, "        if shuffle_combinations is not None:\n", "        if shuffle_combinations:\n")],
 "loading a generator whose combinations are not shuffled", "the loaded generator shuffles",
'''
from causy.causal_discovery.constraint.algorithms.pc import PCClassic
from causy.graph_utils import load_pipeline_steps_by_definition
s = PCClassic()._original_algorithm.pipeline_steps[2]
m, = load_pipeline_steps_by_definition([s.model_dump()])
assert m.generator.shuffle_combinations is False
''')
make("c20-reference", "C20", [(V, '            setattr(element, attribute, VariableReference(name=value["name"]))\n', '            setattr(element, attribute, VariableReference(name=attribute))\n')],
 "a definition in which a parameter refers to a variable with another name", "the loaded step refers to a variable named like the parameter",
'''
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
from causy.causal_discovery.constraint.algorithms.pc import PC
from causy.variables import VariableReference
from causy.graph_utils import load_pipeline_steps_by_definition
d = PC()._original_algorithm.pipeline_steps[1].model_dump()
d["threshold"] = {"name": "my_threshold", "type": "reference"}
m, = load_pipeline_steps_by_definition([d])
assert m.threshold.name == "my_threshold", m.threshold
''')
EDGES = '''
from causy.interfaces import EdgeInterface
from causy.graph import Node
from causy.edge_types import DirectedEdge, UndirectedEdge, BiDirectedEdge
from causy.models import *
import torch
from causy.interfaces import NodeInterface
N = lambda n: NodeInterface(name=n, id=n)
E = lambda u, v, t: EdgeInterface(u=N(u), v=N(v), edge_type=t(), metadata={})
'''
make("c19-types", "C19", [(I, "        return self.name == other.name\n", "        return self.IS_DIRECTED == other.IS_DIRECTED\n")],
 "comparing an undirected with a bidirected edge", "they are equal",
EDGES + '''
assert E("a", "b", UndirectedEdge) != E("a", "b", BiDirectedEdge)
assert E("a", "b", UndirectedEdge) == E("b", "a", UndirectedEdge)
''')
make("c19-reverse", "C19", [(I, '''        if self.edge_type.IS_DIRECTED:
            return self.u == other.u''', '''        if self.edge_type.name != "UNDIRECTED":
            return self.u == other.u''')],
 "comparing a bidirected edge with its reverse", "they differ",
EDGES + '''
assert E("a", "b", BiDirectedEdge) == E("b", "a", BiDirectedEdge)
assert E("a", "b", DirectedEdge) != E("b", "a", DirectedEdge)
''')
DIFF = WS + '''
from causy.interfaces import EdgeInterface, NodeInterface
from causy.edge_types import DirectedEdge, UndirectedEdge, BiDirectedEdge
from causy.models import Result
import datetime
workspace(e1=Experiment(pipeline="p1", dataloader="d1"), e2=Experiment(pipeline="p1", dataloader="d1"))
N = {n: NodeInterface(name=n, id=n) for n in "abcd"}
def store(name, edges, when=1000):
    es = [EdgeInterface(u=N[u], v=N[v], edge_type=t(), metadata={}).model_dump() for u, v, t in edges]
    d = {"created_at": datetime.datetime.fromtimestamp(when).isoformat(), "nodes": {n: N[n].model_dump() for n in N}, "edges": es, "action_history": [], "algorithm": {"type": "name", "reference": "PC"}, "variables": {}, "data_loader_hash": "", "algorithm_hash": "", "variables_hash": ""}
    json.dump(d, open("%s_%d.json" % (name, when), "w"), default=str)
rows_ = []
class Table:
    def __init__(self, *a, **k): pass
    def add_column(self, *a, **k): pass
    def add_row(self, *a, style=None, **k): rows_.append((list(a), style))
cli.Table = Table
class Console:
    def print(self, *a, **k): pass
cli.Console = Console
'''
make("c30-sorted", "C30", [(W, "            u, v = sorted([edge.u.name, edge.v.name])\n", "            u, v = edge.u.name, edge.v.name\n")],
 "comparing results which have a directed edge in opposite directions", "two rows are shown for one pair",
DIFF + '''
store("e1", [("a", "b", DirectedEdge)])
store("e2", [("b", "a", DirectedEdge)])
cli.diff(["e1", "e2"], False)
assert len(rows_) == 1 and rows_[0][0][1:] == ["-->", "-->"] and rows_[0][1] == "red", rows_
''')
make("c30-missing", "C30", [(W, "        all_elements_same = all([e == first_element for e in elements])\n", "        all_elements_same = all(\n            [e == first_element for e in elements if e is not None]\n        )\n")],
 "comparing results of which one has no edge between two nodes", "the row is marked as equal",
DIFF + '''
store("e1", [("a", "b", DirectedEdge)])
store("e2", [("c", "d", DirectedEdge)])
cli.diff(["e1", "e2"], False)
assert [s for r, s in rows_] == ["red", "red"], rows_
''')
make("c30-version", "C30", [(W, "                _load_experiment_result(workspace, experiment_name, version)\n            )\n            experiment = ", "                _load_latest_experiment_result(workspace, experiment_name)\n            )\n            experiment = ")],
 "comparing a version of an experiment that is not the newest one", "the newest result is compared instead",
DIFF + '''
store("e1", [("a", "b", DirectedEdge)], 1000)
store("e1", [("b", "a", DirectedEdge)], 2000)
cli.diff(["e1_1000", "e1"], False)
assert [s for r, s in rows_] == ["red"], rows_
''')
