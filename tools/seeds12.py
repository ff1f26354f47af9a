from mkseed import make
M = "causy/graph_model.py"
DEMO = '''
if __name__ == "__main__":
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm, TestResult, TestResultAction as A
    from causy.edge_types import UndirectedEdge, DirectedEdge
    seen = []
    class Hooked(UndirectedEdge):
        def pre_edge_update_hook(self, graph, result): seen.append(("pre", graph.edge_value(result.u, result.v)))
        def post_edge_update_hook(self, graph, result): seen.append(("post", graph.edge_value(result.u, result.v)))
        def pre_edge_remove_hook(self, graph, result): %s
        def post_edge_type_change_hook(self, graph, result): seen.append("old type")
    class Other(DirectedEdge):
        def post_edge_type_change_hook(self, graph, result): seen.append("new type")
    m = graph_model_factory(Algorithm(pipeline_steps=[], edge_types=[], extensions=[], name="x"))()
    m.create_graph_from_data({"a": [1.0, 2.0], "b": [1.0, 2.0]})
    a, b = m.graph.node_by_id("a"), m.graph.node_by_id("b")
    m.graph.add_edge(a, b, {"w": 0}, edge_type=Hooked())
    R = lambda k, u, v, **kw: TestResult(u=u, v=v, action=k, **kw)
'''
make("c11-type-hook-before", "C11", [(M, '''                    self.graph.update_directed_edge(i.u, i.v, edge_type=i.edge_type)
                    self.graph.add_edge_history(i.u, i.v, i)
                    self._execute_hook("post_edge_type_change_hook", i)
''', '''                    self.graph.add_edge_history(i.u, i.v, i)
                    self._execute_hook("post_edge_type_change_hook", i)
                    self.graph.update_directed_edge(i.u, i.v, edge_type=i.edge_type)
''')], "an edge type with a hook after type changes, and a directed change of the type", "the hook of the old type runs, before the change",
 DEMO % "pass" + '''
    m._take_action([R(A.UPDATE_EDGE_TYPE_DIRECTED, a, b, edge_type=Other())])
    assert seen == ["new type"], seen
''')
make("c11-failing-edge-hook", "C11", [(M, '''        except GraphError as e:
            logger.info(f"Graph Error in hook ({str(hook)}): {e}")
        except Exception as e:
            logger.error''', '''        except GraphError as e:
            logger.info(f"Graph Error in hook ({str(hook)}): {e}")
        except (TypeError, ValueError, AttributeError) as e:
            logger.error''')], "an edge type whose hook fails with another error, e.g. a KeyError", "the remaining results are not applied",
 DEMO % "raise KeyError('x')" + '''
    m._take_action([R(A.REMOVE_EDGE_UNDIRECTED, a, b)])
    assert not m.graph.edge_exists(a, b)
''')
make("c11-update-reverse-hook", "C11", [(M, '''                    self._execute_hook("pre_edge_update_hook", i)
                    self.graph.update_directed_edge(i.u, i.v, i.data)
''', '''                    if not self.graph.directed_edge_exists(i.v, i.u):
                        self._execute_hook("pre_edge_update_hook", i)
                    self.graph.update_directed_edge(i.u, i.v, i.data)
''')], "an edge in both directions of which one is updated", "the pre hook is not called",
 DEMO % "pass" + '''
    m._take_action([R(A.UPDATE_EDGE_DIRECTED, a, b, data={"w": 1})])
    assert seen == [("pre", {"w": 0}), ("post", {"w": 1})], seen
''')
make("c08-flush-early", "C08", [(M, '''                        all_actions.extend(all_actions_current)
                        local_results = []

''', '''                        all_actions.extend(all_actions_current)
                        local_results = []
                    elif len(local_results) >= 6 and not getattr(
                        rn_fn, "needs_unapplied_actions", False
                    ):
                        # keep the list of pending results short
                        actions_taken_current, all_actions_current = self._take_action(
                            local_results, dry_run=not apply_to_graph
                        )
                        actions_taken.extend(actions_taken_current)
                        all_actions.extend(all_actions_current)
                        local_results = []

''')], "a step that is not applied synchronously and has seven combinations or more", "the later combinations see results of the earlier ones",
'''
if __name__ == "__main__":
    from typing import Generic
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm, TestResult, TestResultAction as A, ComparisonSettings
    from causy.interfaces import PipelineStepInterface, PipelineStepInterfaceType, GeneratorInterface
    from causy.generators import AllCombinationsGenerator
    seen = []
    class Step(PipelineStepInterface[PipelineStepInterfaceType], Generic[PipelineStepInterfaceType]):
        generator: GeneratorInterface = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
        parallel: bool = False
        def process(self, nodes, graph, unapplied_actions=None):
            seen.append(len(graph.edges["a"]) and sum(1 for e in graph.edges["a"].values() if not e.deleted))
            return TestResult(u=graph.nodes[nodes[0]], v=graph.nodes[nodes[1]], action=A.REMOVE_EDGE_UNDIRECTED, data={})
    m = graph_model_factory(Algorithm(pipeline_steps=[], edge_types=[], extensions=[], name="x"))()
    m.create_graph_from_data({n: [1.0, 2.0] for n in "abcde"})
    for i, x in enumerate("abcde"):
        for y in "abcde"[i + 1:]:
            m.graph.add_edge(m.graph.node_by_id(x), m.graph.node_by_id(y), {})
    taken, proposed = m.execute_pipeline_step(Step())
    assert len(seen) >= 10 and set(seen) == {4}, seen
''')
