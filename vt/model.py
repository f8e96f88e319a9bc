"""A plain model of a diagram: dictionaries and a multiset of edges."""
from collections import Counter
from pyzx.utils import EdgeType, VertexType

Z, X, B, H, ZB, WI, WO = (VertexType.Z, VertexType.X, VertexType.BOUNDARY, VertexType.H_BOX, VertexType.Z_BOX, VertexType.W_INPUT, VertexType.W_OUTPUT)
S, HAD, WIO = EdgeType.SIMPLE, EdgeType.HADAMARD, EdgeType.W_IO


def pair(a, b):
    return (a, b) if a <= b else (b, a)


class Model:
    def __init__(self):
        self.v = {}          # vertex -> dict(ty, phase, q, row, ground, data)
        self.e = Counter()   # (a, b, type) with a <= b
        self.ins = ()
        self.outs = ()
        self.multi = False
        self.auto = True
        self.scalar = 1

    def copy(self, rename=None):
        m = Model()
        f = (lambda x: x) if rename is None else rename.__getitem__
        m.v = {f(v): dict(d, data=dict(d['data'])) for v, d in self.v.items()}
        for (a, b, t), k in self.e.items():
            m.e[pair(f(a), f(b)) + (t,)] += k
        m.ins, m.outs = tuple(map(f, self.ins)), tuple(map(f, self.outs))
        m.multi, m.auto, m.scalar = self.multi, self.auto, self.scalar
        return m

    def between(self, a, b):
        a, b = pair(a, b)
        return {t: self.e[(a, b, t)] for t in (S, HAD, WIO) if self.e[(a, b, t)]}

    def clean(self):
        self.e = +self.e

    def drop(self, v):
        del self.v[v]
        self.e = Counter({k: n for k, n in self.e.items() if v not in k[:2]})
        self.ins = tuple(u for u in self.ins if u != v)
        self.outs = tuple(u for u in self.outs if u != v)

    def nbrs(self, v):
        return {b if a == v else a for a, b, _ in self.e if v in (a, b)}


def differ(g, m):
    """First difference between what the diagram answers and the model; None if they agree."""
    vs = list(g.vertices())
    if len(set(vs)) != len(vs) or set(vs) != set(m.v):
        return "vertices() is %s, expected %s" % (vs, sorted(m.v))
    if g.num_vertices() != len(m.v) or g.vertex_set() != set(m.v):
        return "num_vertices() %d or vertex_set() %s, expected %s" % (g.num_vertices(), g.vertex_set(), sorted(m.v))
    if vs and g.vindex() != max(vs) + 1:
        return "vindex() is %s with vertices %s" % (g.vindex(), vs)
    got = Counter()
    for e in list(g.edges()):
        a, b = g.edge_st(e)
        if (g.edge_s(e), g.edge_t(e)) != (a, b):
            return "edge_s, edge_t of %s are %s, %s but edge_st gives %s" % (e, g.edge_s(e), g.edge_t(e), (a, b))
        got[pair(a, b) + (g.edge_type(e),)] += 1
    if got != m.e:
        return "edges() gives %s, expected %s" % (show(got), show(m.e))
    if g.num_edges() != sum(m.e.values()):
        return "num_edges() is %s, expected %s" % (g.num_edges(), sum(m.e.values()))
    es = set(g.edge_set())
    if {pair(*g.edge_st(e)) + (g.edge_type(e),) for e in es} != set(m.e):
        return "edge_set() is %s, expected %s" % (es, show(m.e))
    ty, ph, qs, rs, gr = g.types(), g.phases(), g.qubits(), g.rows(), set(g.grounds())
    for v, d in m.v.items():
        if g.type(v) != d['ty'] or ty[v] != d['ty']:
            return "type(%d) is %s, types()[%d] is %s, expected %s" % (v, g.type(v), v, ty[v], d['ty'])
        if g.phase(v) != d['phase'] or ph[v] != d['phase']:
            return "phase(%d) is %s, phases()[%d] is %s, expected %s" % (v, g.phase(v), v, ph[v], d['phase'])
        if g.qubit(v) != d['q'] or qs.get(v, -1) != d['q']:
            return "qubit(%d) is %s, expected %s" % (v, g.qubit(v), d['q'])
        if g.row(v) != d['row'] or rs.get(v, -1) != d['row']:
            return "row(%d) is %s, expected %s" % (v, g.row(v), d['row'])
        if g.is_ground(v) != d['ground'] or (v in gr) != d['ground']:
            return "is_ground(%d) is %s, expected %s" % (v, g.is_ground(v), d['ground'])
        keys = list(g.vdata_keys(v))
        if sorted(keys) != sorted(d['data']):
            return "vdata_keys(%d) is %s, expected %s" % (v, keys, sorted(d['data']))
        for k in keys:
            if g.vdata(v, k) != d['data'][k] or g.vdata(v, k, default=17) != d['data'][k]:
                return "vdata(%d, %r) is %r, expected %r" % (v, k, g.vdata(v, k), d['data'][k])
        if g.vdata(v, 'never set', default=17) != 17:
            return "vdata does not return the default"
        nb = list(g.neighbors(v))
        if len(set(nb)) != len(nb) or set(nb) != m.nbrs(v):
            return "neighbors(%d) is %s, expected %s" % (v, nb, sorted(m.nbrs(v)))
        deg = sum(n * (2 if a == b else 1) for (a, b, t), n in m.e.items() if v in (a, b))
        if g.vertex_degree(v) != deg:
            return "vertex_degree(%d) is %s, expected %s" % (v, g.vertex_degree(v), deg)
        want = Counter({k: n for k, n in m.e.items() if v in k[:2]})
        inc = Counter(pair(*g.edge_st(e)) + (g.edge_type(e),) for e in g.incident_edges(v))
        if inc != want:
            return "incident_edges(%d) is %s, expected %s" % (v, show(inc), show(want))
        of_v = Counter(pair(*g.edge_st(e)) + (g.edge_type(e),) for e in g.edges(v))
        if of_v != want:
            return "edges(%d) is %s, expected %s" % (v, show(of_v), show(want))
    if set(ph) != set(m.v) or set(ty) != set(m.v) or not gr <= set(m.v) or not set(qs) <= set(m.v) or not set(rs) <= set(m.v):
        return "a mapping (types, phases, qubits, rows, grounds) has removed vertices: %s %s %s %s %s, vertices %s" % (list(ty), list(ph), list(qs), list(rs), gr, sorted(m.v))
    for a in m.v:
        for b in m.v:
            bt = m.between(a, b)
            if bool(g.connected(a, b)) != bool(bt):
                return "connected(%d,%d) is %s, the edges between them are %s" % (a, b, g.connected(a, b), bt)
            es = Counter(g.edge_type(e) for e in g.edges(a, b))
            if es != Counter(bt):
                return "edges(%d,%d) has types %s, expected %s" % (a, b, dict(es), bt)
            if sum(bt.values()) == 1:
                e = g.edge(a, b)
                if pair(*g.edge_st(e)) != pair(a, b) or g.edge_type(e) != next(iter(bt)):
                    return "edge(%d,%d) is %s of type %s, expected type %s" % (a, b, e, g.edge_type(e), next(iter(bt)))
    if tuple(g.inputs()) != m.ins or tuple(g.outputs()) != m.outs or g.num_inputs() != len(m.ins) or g.num_outputs() != len(m.outs):
        return "inputs %s outputs %s, expected %s %s" % (g.inputs(), g.outputs(), m.ins, m.outs)
    rows = [d['row'] for d in m.v.values()]  # -1 also stands for no row
    if g.depth() not in (max((x for x in rows if x != -1), default=-1), max(rows, default=-1)):
        return "depth() is %s, rows are %s" % (g.depth(), [d['row'] for d in m.v.values()])
    if bool(g.is_hybrid()) != any(d['ground'] for d in m.v.values()):
        return "is_hybrid() is %s" % g.is_hybrid()
    x = g.scalar.to_number()
    if abs(x - m.scalar) > 1e-9 * max(abs(x), abs(m.scalar)):
        return "the scalar is %s, expected %s" % (x, m.scalar)
    return None


def show(c):
    return sorted((a, b, int(t), n) for (a, b, t), n in c.items())


def of(g):
    """The model of a diagram as it answers now."""
    m = Model()
    gr = set(g.grounds())
    for v in g.vertices():
        m.v[v] = dict(ty=g.type(v), phase=g.phase(v), q=g.qubit(v), row=g.row(v), ground=v in gr, data={k: g.vdata(v, k) for k in g.vdata_keys(v)})
    for e in list(g.edges()):
        a, b = g.edge_st(e)
        m.e[pair(a, b) + (g.edge_type(e),)] += 1
    m.ins, m.outs = tuple(g.inputs()), tuple(g.outputs())
    m.multi = g.backend == 'multigraph'
    m.scalar = g.scalar.to_number()
    return m
