from mkseed import make
from seeds1 import HEAD
STEP = HEAD + '''
from typing import Generic, Optional
from causy.interfaces import PipelineStepInterface, PipelineStepInterfaceType, GeneratorInterface, BaseGraphInterface, GraphModelInterface
from causy.common_pipeline_steps.logic import Loop, ApplyActionsTogether
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
class Gen(GeneratorInterface):
    combos: list = []
    def generate(self, graph, graph_model_instance_):
        yield from self.combos
class Step(PipelineStepInterface):
    parallel: bool = False
    apply_synchronous: bool = False
    needs_unapplied_actions: bool = False
    out: dict = {}
    log: list = []
    def process(self, nodes, graph, unapplied_actions=None):
        LOG.append((tuple(nodes), sorted((u, v) for u in graph.edges for v in graph.edges[u] if graph.directed_edge_exists(u, v)), list(unapplied_actions or [])))
        return OUT.get(tuple(nodes))
LOG, OUT = [], {}
def step(combos, chunked=False, **k):
    s = Step(**{x: y for x, y in k.items()})
    for x, y in k.items(): setattr(s, x, y)
    s.generator = Gen(chunked=chunked, shuffle_combinations=False)
    s.generator.combos = combos
    return s
R = lambda u, v, a: TestResult(u=u, v=v, action=a, data={})
A = TestResultAction
'''
M = "causy/graph_model.py"
make("c08-sync-keeps-results", "C08", [(M, '''                        actions_taken.extend(actions_taken_current)
                        all_actions.extend(all_actions_current)
                        local_results = []
''', '''                        actions_taken.extend(actions_taken_current)
                        all_actions.extend(all_actions_current)
                        if actions_taken_current:
                            local_results = []
''')], "a step that applies its results synchronously and returns a result that cannot be applied before further combinations", "a result that was not applicable is applied again together with later ones and proposed twice",
STEP + '''
m, (a, b, c) = model()
m.graph.add_edge(a, b, {}); m.graph.add_edge(b, c, {})
OUT[("n0", "n2")] = R(a, c, A.REMOVE_EDGE_UNDIRECTED)
OUT[("n0", "n1")] = R(a, b, A.REMOVE_EDGE_UNDIRECTED)
s = step([["n0", "n2"], ["n0", "n1"]], apply_synchronous=True)
taken, allp = m.execute_pipeline_step(s)
assert len(allp) == 2 and len(taken) == 1, (len(allp), len(taken))
''')
make("c08-chunk-dry-run", "C08", [(M, '''                    actions_taken_current, all_actions_current = self._take_action(
                        iterator, dry_run=not apply_to_graph
                    )
''', '''                    actions_taken_current, all_actions_current = self._take_action(
                        iterator
                    )
''')], "a step with a chunked generator executed without application to the graph, e.g. in a group", "the graph is changed although application was switched off",
STEP + '''
m, (a, b, c) = model()
m.graph.add_edge(a, b, {})
OUT[("n0", "n1")] = R(a, b, A.REMOVE_EDGE_UNDIRECTED)
s = step([[["n0", "n1"]]], chunked=True)
m.execute_pipeline_step(s, apply_to_graph=False)
assert m.graph.edge_exists(a, b)
''')
make("c09-empty-loop-entry", "C09", [(M, '''                actions_taken = filter.execute(self.graph.graph, self)
                self.graph.graph.action_history.append(actions_taken)
''', '''                actions_taken = filter.execute(self.graph.graph, self)
                if actions_taken.steps:
                    self.graph.graph.action_history.append(actions_taken)
''')], "a logic step that executes none of its steps, like a loop whose exit condition holds at once", "the history has no entry for the logic step, so entries no longer match the pipeline",
STEP + '''
from causy.interfaces import ExitConditionInterface
class Now(ExitConditionInterface):
    def check(self, graph, graph_model_instance_, actions_taken, iteration): return True
m, (a, b, c) = model()
m.pipeline_steps = [Loop(pipeline_steps=[step([["n0", "n1"]])], exit_condition=Now()), step([["n0", "n1"]])]
h = m.execute_pipeline_steps()
assert len(h) == 2, len(h)
''')
make("c10-iteration-counts-steps", "C10", [("causy/common_pipeline_steps/logic.py", '''                actions_taken.extend(current_actions_taken)
            n += 1
''', '''                actions_taken.extend(current_actions_taken)
                n += 1
''')], "a loop with more than one step and an exit condition that looks at the iteration number", "the exit condition is told the number of executed steps instead of iterations",
STEP + '''
from causy.interfaces import ExitConditionInterface
class Three(ExitConditionInterface):
    def check(self, graph, graph_model_instance_, actions_taken, iteration): return iteration >= 3
m, (a, b, c) = model()
l = Loop(pipeline_steps=[step([["n0", "n1"]]), step([["n1", "n2"]])], exit_condition=Three())
assert len(l.execute(m.graph, m).steps) == 6
''')
make("c10-together-interleaved", "C10", [("causy/common_pipeline_steps/logic.py", '''            actions.extend(actions_taken)

        graph_model_instance_._take_action(actions)
''', '''            actions.extend(a for a in actions_taken if a not in actions)

        graph_model_instance_._take_action(actions)
''')], "two grouped steps that propose equal actions, with another one in between that makes the repetition matter", "an action proposed twice is applied only once",
STEP + '''
m, (a, b, c) = model()
m.graph.add_edge(a, b, {})
rm, rs = R(a, b, A.REMOVE_EDGE_UNDIRECTED), R(a, b, A.RESTORE_EDGE)
OUT.update({("n0",): rm, ("n1",): rs, ("n2",): R(a, b, A.REMOVE_EDGE_UNDIRECTED)})
l = ApplyActionsTogether(pipeline_steps=[step([["n0"], ["n1"]]), step([["n2"]])])
l.execute(m.graph, m)
assert not m.graph.edge_exists(a, b)
''')
