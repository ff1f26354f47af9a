from mkseed import make
from seeds1 import HEAD
T = "causy/causal_discovery/constraint/independence_tests/common.py"
P = "causy/causal_discovery/constraint/orientation_rules/pc.py"
NUM = HEAD + '''
import torch, math
from scipy import stats
from causy.causal_discovery.constraint.independence_tests.common import *
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.causal_discovery.constraint.orientation_rules.pc import *
'''
make("c15-separators-last", "C15", [(P, '''                    separators += [a.id for a in action.data["separatedBy"]]''', '''                    separators = [a.id for a in action.data["separatedBy"]]''')],
 "two recorded removals of the same edge with different separating sets", "a node in an earlier separating set is oriented as collider",
 NUM + '''
from causy.models import ActionHistoryStep
m, (a, b, c) = model()
g = m.graph
g.add_edge(a, b, {}); g.add_edge(c, b, {})
R = lambda s: TestResult(u=a, v=c, action=TestResultAction.REMOVE_EDGE_UNDIRECTED, data={"separatedBy": s})
g.add_edge_history(a, c, R([b])); g.add_edge_history(a, c, R([]))
r = ColliderTest().process([a.id, c.id], g, [])
assert not r, r
''')
make("c15-conflict-one-side", "C15", [(P, "if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:", "if len(unapplied_actions_y_z) > 0:")],
 "a pending orientation that conflicts only on the edge from the first node", "a conflicting collider is oriented although the first one is to be kept",
 NUM + '''
m, (a, b, c) = model()
g = m.graph
g.add_edge(a, b, {}); g.add_edge(c, b, {})
pend = [[TestResult(u=a, v=b, action=TestResultAction.REMOVE_EDGE_DIRECTED, data={})]]
r = ColliderTest().process([a.id, c.id], g, pend)
assert all(q.action == TestResultAction.DO_NOTHING for q in r), r
''')
make("c16-quadruple-adjacent", "C16", [(P, """                not graph.edge_exists(y, w)
                and graph.only_directed_edge_exists(y, x)""", """                not graph.undirected_edge_exists(y, w)
                and graph.only_directed_edge_exists(y, x)""")],
 "the third rule's pattern with a directed edge between the outer nodes", "an edge is oriented without justification when the outer nodes are adjacent by a directed edge",
 NUM + '''
bad = 0
for order in ("ywxz", "ywzx"):
    m, _ = model()
    g = m.graph
    n = {s: g.add_node(s, [1.0, 2.0], id_=s) for s in order}
    y, w, x, z = (n[s] for s in "ywxz")
    for p, q in ((x, z), (z, x)):
        m, _ = model()
        g = m.graph
        n = {s: g.add_node(s, [1.0, 2.0], id_=s) for s in order}
        y, w, p, q = n["y"], n["w"], n[p.name], n[q.name]
        g.add_directed_edge(y, p, {}); g.add_directed_edge(w, p, {}); g.add_directed_edge(y, w, {})
        g.add_edge(q, y, {}); g.add_edge(q, w, {}); g.add_edge(q, p, {})
        bad += len(OrientQuadrupleTest().process(["y", "w"], g))
assert bad == 0, bad
''')
make("c16-quadruple-any-edge", "C16", [(P, '''                not graph.edge_exists(z, y)
                and graph.undirected_edge_exists(w, y)
                and graph.undirected_edge_exists(x, w)
                and graph.undirected_edge_exists(w, z)''', '''                not graph.edge_exists(z, y)
                and graph.undirected_edge_exists(w, y)
                and graph.edge_exists(x, w)
                and graph.undirected_edge_exists(w, z)''')],
 "the fourth rule's last pattern with an already directed edge between the pair", "an edge is oriented without justification",
 NUM + '''
bad = 0
for order in ("xwyz", "xwzy"):
    m, _ = model()
    g = GraphManager()
    n = {s: g.add_node(s, [1.0, 2.0], id_=s) for s in order}
    x, w, y, z = (n[s] for s in "xwyz")
    g.add_edge(w, y, {}); g.add_edge(w, z, {}); g.add_directed_edge(z, x, {}); g.add_directed_edge(x, y, {}); g.add_directed_edge(x, w, {})
    for p, q in ((y, z), (z, y)):
        r = FurtherOrientQuadrupleTest().process(["x", "w"], g)
        bad += len(r)
    g2 = GraphManager()
    n = {s: g2.add_node(s, [1.0, 2.0], id_=s) for s in order}
    x, w, y, z = (n[s] for s in "xwyz")
    g2.add_edge(w, y, {}); g2.add_edge(w, z, {}); g2.add_directed_edge(y, x, {}); g2.add_directed_edge(x, z, {}); g2.add_directed_edge(x, w, {})
    bad += len(FurtherOrientQuadrupleTest().process(["x", "w"], g2))
assert bad == 0, bad
''')
make("c18-parents-live-only-one-way", "C18", [("causy/causal_effect_estimation/multivariate_regression.py", "            if parent != cause_variable\n", "            if not graph.edge_exists(parent, cause_variable)\n            and parent != cause_variable\n")],
 "an effect with a second parent that is adjacent to the cause", "the confounding parent is left out of the regression, so the effect is biased",
 NUM + '''
from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression as E
torch.manual_seed(0)
m, _ = model()
g = GraphManager()
z = torch.randn(500, dtype=torch.float64); x = z + torch.randn(500, dtype=torch.float64); y = 2 * x + 5 * z
x, y, z = [g.add_node(s, v.tolist(), id_=s) for s, v in (("x", x), ("y", y), ("z", z))]
g.add_directed_edge(z, x, {}); g.add_directed_edge(z, y, {}); g.add_directed_edge(x, y, {})
r = E().process(["x", "y"], g)
assert abs(r.data["direct_effect"] - 2) < 0.01, r.data
''')
