"""Graph abstraction with k generic nodes: every edge between two of them is symbolically absent, live or soft deleted."""
from .rules_actions import *

from .interp import Obj

GRAPH = "causy.graph.Graph"


class Small:
    def __init__(self, prog, k, history=0, indexed=True, deleted=True, stop=None, names=None, sparse=False, pairs=None):
        self.prog, self.k = prog, k
        self.g = T("sym", "graph")
        nm = names or ["n%d" % i for i in range(k)]
        self.ids = [T("sym", "id_" + n) for n in nm]
        self.nodes = [T("sym", n) for n in nm]
        assume_distinct(*self.ids, *self.nodes)
        self.i = i = Interp(prog, stop=stop, types={self.g: GRAPH})
        st = self.st = State()
        for a, b in zip(self.ids, self.nodes):
            i.types[a] = "builtins.str"
            i.types[b] = NODE
        self.E = {}
        self.care = 1
        self.never_deleted = []
        for n in self.nodes:
            self.care = AND(self.care, NOT(eq(n, NONE)))
        nd = self.mkdict([(a, 1, b) for a, b in zip(self.ids, self.nodes)])
        fw, bw = {x: [] for x in range(k)}, {x: [] for x in range(k)}
        for x in range(k):
            for y in range(k):
                if x == y:
                    continue
                e = T("sym", "edge_%s_%s" % (nm[x], nm[y]))
                i.types[e] = EDGE
                p = bvar(T("sym", "%s->%s" % (nm[x], nm[y]))) if pairs is None or (x, y) in pairs or (y, x) in pairs else 0
                self.E[x, y] = (p, e)
                if p == 0:
                    continue
                if not deleted:
                    self.never_deleted.append(e)
                else:
                    truth(T("attr", e, "deleted"))
                fw[x].append((self.ids[y], p, e))
                bw[y].append((self.ids[x], p, e))
        self.fw_in = [self.mkdict(fw[x]) for x in range(k)]
        self.bw_in = [self.mkdict(bw[x]) for x in range(k)]
        row = lambda tag, x, cells: OR(bvar(T("sym", "%s_%s" % (tag, nm[x]))), *[c[1] for c in cells]) if sparse else 1  # nodes may have no entry at all
        ed = self.mkdict([(self.ids[x], row("edges", x, fw[x]), self.fw_in[x]) for x in range(k)])
        rv = self.mkdict([(self.ids[x], row("reverse", x, bw[x]), self.bw_in[x]) for x in range(k)])
        self.extra_atoms = {T("sym", "%s_%s" % (tag, n)) for tag in ("edges", "reverse") for n in nm} if sparse else set()
        dl = self.mkdict([(self.ids[x], 1, self.mkdict([])) for x in range(k)])
        cells = []
        self.hist = {}
        for x in range(k):
            for y in range(k):
                if x != y:
                    hs = []
                    for h in range(history):
                        t = T("sym", "past_%s_%s_%d" % (nm[x], nm[y], h))
                        i.types[t] = TR
                        hs.append(t)
                    self.hist[x, y] = hs
                    cells.append((T("tup", self.ids[x], self.ids[y]), 1, i.new_list(st, hs)))
        eh = self.mkdict(cells)
        self.tbl = {(self.g, "nodes"): nd, (self.g, "edges"): ed, (self.g, "_reverse_edges"): rv, (self.g, "_deleted_edges"): dl, (self.g, "edge_history"): eh}
        for a, b in zip(self.ids, self.nodes):
            self.tbl[(b, "id")] = a
        for n, b in zip(nm, self.nodes):  # names that are not ids: what the code looks up by name is not found
            t = self.tbl[(b, "name")] = T("sym", "name_" + n)
            i.types[t] = "builtins.str"
            assume_distinct(t, *self.ids)
        for (x, y), (p, e) in self.E.items():
            self.tbl[(e, "u")] = self.nodes[x]
            self.tbl[(e, "v")] = self.nodes[y]

        for e in self.never_deleted:
            self.tbl[(e, "deleted")] = FALSE

        def oa(st_, o, a):
            ob = i.obj(st_, o)
            if ob is not None and a in ob.fields:
                return None
            return self.tbl.get((o, a))

        i.on_attr = oa
        self.base_events = len(i.events)

    def mkdict(self, cells):
        o = Obj("dict")
        o.cells = tuple(cells)
        return self.i.new(self.st, o)

    # truth of facts about the graph
    def live(self, x, y):
        p, e = self.E[x, y]
        return p if p == 0 or (e, "deleted") in self.tbl else AND(p, NOT(truth(T("attr", e, "deleted"))))

    def und(self, x, y):
        return AND(self.live(x, y), self.live(y, x))

    def only(self, x, y):
        return AND(self.live(x, y), NOT(self.live(y, x)))

    def adj(self, x, y):
        return OR(self.live(x, y), self.live(y, x))

    def ls(self, items):
        return self.i.new_list(self.st, items)
