"""P01: simplification strategies preserve the linear map, scalar and I/O order."""
from .. import gen, ref, mon, wide
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S
from pyzx.utils import VertexType, EdgeType

RULE = ("random ZX-diagrams (arbitrary, graph-like with gadgets, circuits, closed scalars) x simplification strategy or "
        "sequence of strategies; a case is non-trivial when the strategy changed the diagram; distinct by (input diagram, strategy)")
ASSUMPTIONS = ["diagrams are on the default simple-graph backend, which the strategies are written for",
               "pivot_gadget/pivot_boundary/copy strategies are only driven on graph-like diagrams (their documented precondition)",
               "floating-point comparison at 1e-7 relative tolerance"]

ANY = ['spider_simp', 'id_simp', 'pivot_simp', 'lcomp_simp', 'gadget_simp', 'supplementarity_simp', 'bialg_simp',
       'phase_free_simp', 'interior_clifford_simp', 'clifford_simp', 'reduce_scalar', 'full_reduce', 'to_gh', 'to_rg',
       'to_graph_like', 'full_reduce_iter', 'clifford_iter', 'interior_clifford_iter', 'spider_iter', 'id_iter',
       'pivot_iter', 'lcomp_iter', 'bialg_iter', 'gadget_iter']
GL = ANY + ['pivot_gadget_simp', 'pivot_boundary_simp', 'copy_simp', 'pivot_gadget_iter', 'pivot_boundary_iter']
NEED = ["maps_compared", "strategy_changed_diagram", "iterator_steps_monitored", "wide_diagrams"]
HEAVY = ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'full_reduce_iter', 'reduce_scalar', 'spider_simp']


def run_strategy(case, g, name, before, matchf=False):
    r = case.rng
    sig = gen.show(g)
    if name.endswith('_iter'):
        n = 0
        for g2, step in getattr(S, name)(g):
            n += 1
            case.see("iterator_steps_monitored")
            if n > 2000:
                case.fail("no-termination:" + name, "%s yielded more than 2000 steps on a diagram with %d vertices" % (name, g.num_vertices()))
            before = mon.preserved(case, "%s step %s" % (name, step.rstrip('0123456789').split()[-1]), before, g2)
    elif name in ('to_gh', 'to_graph_like'):
        getattr(S, name)(g)
        if name == 'to_gh' and any(int(g.type(v)) == 2 for v in g.vertices()):
            case.fail("result:to_gh", "X spiders remain after to_gh")
        if name == 'to_graph_like':
            why = notgraphlike(g)
            if why:
                case.fail("result:to_graph_like", "result is not graph-like: " + why)
    elif name == 'to_rg':
        if r.random() < 0.5:
            S.to_rg(g)
        else:
            sel = set(v for v in g.vertices() if r.random() < 0.5)
            S.to_rg(g, select=lambda v: v in sel)
    else:
        kw = {'quiet': True}
        if r.random() < 0.3:
            kw['stats'] = S.Stats()
        if matchf:
            salt = r.randrange(1000)
            thr = r.choice([3, 6, 8])
            # accepts vertices and edges; deterministic
            kw['matchf'] = lambda x: (hash((str(x), salt)) % 10) < thr
        getattr(S, name)(g, **kw)
    after = mon.preserved(case, name + (" (filtered)" if matchf else ""), before, g)
    if gen.show(g) != sig:
        case.see("strategy_changed_diagram")
        case.see("changed:" + name)
        case.note(sig, name)
        case.sample("%s on %s" % (name, sig))
    return after


def notgraphlike(g):
    for v in g.vertices():
        if int(g.type(v)) not in (0, 1):
            return "vertex of type %s" % g.type(v)
    for e in g.edges():
        s, t = g.edge_st(e)
        if s == t:
            return "self-loop"
        if int(g.type(s)) == 1 and int(g.type(t)) == 1 and int(g.edge_type(e)) != 2:
            return "plain edge between spiders"
    for v in g.vertices():
        nb = list(g.neighbors(v))
        if int(g.type(v)) == 0 and (len(nb) != 1 or int(g.type(nb[0])) != 1):
            return "boundary not attached to one spider"
        if int(g.type(v)) == 1 and sum(int(g.type(n)) == 0 for n in nb) > 1:
            return "spider attached to two boundaries"
    return None


def start(g):
    return ref.matrix(g)


def k_diag(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(1, 13), phases=r.choice(['mix', 'clifford', 'cliffordT', 'wild', 'pauli']),
                    ph=r.choice([0.1, 0.4, 0.8]), px=r.choice([0, 0.3, 0.5]))
    run_strategy(case, g, r.choice(HEAVY if r.random() < 0.4 else ANY), start(g), matchf=False)


def k_filtered(case):
    r = case.rng
    g = gen.graphlike(r) if r.random() < 0.6 else gen.diagram(r)
    name = r.choice(['spider_simp', 'id_simp', 'pivot_simp', 'lcomp_simp', 'gadget_simp', 'interior_clifford_simp',
                     'clifford_simp', 'full_reduce'])
    run_strategy(case, g, name, start(g), matchf=True)


def k_graphlike(case):
    r = case.rng
    g = gen.graphlike(r, n=r.randrange(1, 12), phases=r.choice(['mix', 'clifford', 'cliffordT', 'wild', 'pauli']),
                      bound_h=r.choice([0, 0, 0.3]), gadgets=r.randrange(0, 5))
    name = r.choice(HEAVY if r.random() < 0.3 else GL)
    run_strategy(case, g, name, start(g))


def k_gadgets(case):
    """Many phase gadgets with coinciding / nested / supplementary target sets."""
    r = case.rng
    g = gen.graphlike(r, n_in=r.randrange(0, 3), n_out=r.randrange(0, 3), n=r.randrange(2, 7), gadgets=r.randrange(2, 7),
                      phases=r.choice(['cliffordT', 'wild']), p=r.choice([0, 0.2, 0.5]))
    name = r.choice(['gadget_simp', 'pivot_gadget_simp', 'full_reduce', 'supplementarity_simp', 'full_reduce_iter', 'reduce_scalar', 'copy_simp'])
    run_strategy(case, g, name, start(g))


def k_supp(case):
    """Pairs of spiders with equal neighbourhoods and (anti)equal phases: supplementarity territory."""
    r = case.rng
    from fractions import Fraction
    from pyzx.graph import Graph
    g = Graph()
    n = r.randrange(1, 6)
    base = [g.add_vertex(VertexType.Z, i, 1, phase=gen.phase(r, 'mix')) for i in range(n)]
    outs = []
    for b in base:
        if r.random() < 0.5:
            o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
            g.add_edge((b, o), EdgeType.HADAMARD if r.random() < .2 else EdgeType.SIMPLE)
            outs.append(o)
    for i in range(n):
        for j in range(i):
            if r.random() < 0.3:
                g.add_edge((base[i], base[j]), EdgeType.HADAMARD)
    nb = r.sample(base, r.randrange(1, n + 1))
    al = gen.phase(r, 'wild')
    prev = None
    for k in range(r.randrange(2, 5)):
        q = r.choice([al, -al, al + 1, 1 - al, gen.phase(r, 'wild')])
        v = g.add_vertex(VertexType.Z, -1, 2 + k, phase=q % 2)
        for b in nb:
            g.add_edge((v, b), EdgeType.HADAMARD)
        if prev is not None and r.random() < 0.3:
            g.add_edge((prev, v), EdgeType.HADAMARD)
        prev = v
    gen.split(r, g, outs)
    run_strategy(case, g, r.choice(['supplementarity_simp', 'reduce_scalar', 'full_reduce']), start(g))


def k_phasefree(case):
    r = case.rng
    g = gen.diagram(r, pnz=r.choice([0, 0, 0.2]), ph=r.choice([0, 0, 0.2]), px=0.5, n_spiders=r.randrange(2, 14),
                    n_in=r.randrange(0, 4), n_out=r.randrange(0, 4), bound_h=r.choice([0, 0.3]))
    run_strategy(case, g, r.choice(['bialg_simp', 'phase_free_simp', 'bialg_iter', 'spider_simp', 'full_reduce']), start(g))


def k_bipartite(case):
    """Bipartite phase-free Z/X diagrams: every interior edge is a bialgebra candidate."""
    r = case.rng
    from pyzx.graph import Graph
    g = Graph()
    a = [g.add_vertex(VertexType.Z, i, 1) for i in range(r.randrange(1, 5))]
    b = [g.add_vertex(VertexType.X, i, 2) for i in range(r.randrange(1, 5))]
    pe = r.choice([0.3, 0.5, 0.8, 1])
    for x in a:
        for y in b:
            if r.random() < pe:
                g.add_edge((x, y), EdgeType.HADAMARD if r.random() < 0.06 else EdgeType.SIMPLE)
    ins, outs = [], []
    for l, row in ((ins, 0), (outs, 3)):
        for x in (a if row == 0 else b):
            if r.random() < 0.6:
                v = g.add_vertex(VertexType.BOUNDARY, len(l), row)
                # half of the time through an intermediate spider of the other colour
                if r.random() < 0.6:
                    u = g.add_vertex(VertexType.X if row == 0 else VertexType.Z, len(l), row)
                    g.add_edge((v, u))
                    g.add_edge((u, x))
                else:
                    g.add_edge((v, x))
                l.append(v)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    run_strategy(case, g, r.choice(['bialg_simp', 'phase_free_simp', 'bialg_iter']), start(g))


def k_scalar(case):
    r = case.rng
    if r.random() < 0.5:
        g = gen.graphlike(r, n_in=0, n_out=0, n=r.randrange(1, 14), phases=r.choice(['mix', 'clifford', 'cliffordT']))
        name = r.choice(['reduce_scalar', 'full_reduce', 'copy_simp', 'clifford_simp', 'supplementarity_simp', 'full_reduce_iter'])
    else:
        g = gen.diagram(r, n_in=0, n_out=0, n_spiders=r.randrange(1, 15), phases=r.choice(['mix', 'clifford', 'cliffordT']))
        name = r.choice(['reduce_scalar', 'full_reduce', 'clifford_simp', 'spider_simp', 'id_simp', 'full_reduce_iter'])
    run_strategy(case, g, name, start(g))


def k_circuit(case):
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(1, 6), ngates=r.randrange(0, 60), names=r.choice([gen.BASIC, gen.CLIFFTG, gen.MEDIUM]),
                    mode=r.choice(['cliffordT', 'mix', 'clifford']))
    g = c.to_graph()
    if r.random() < 0.25 and c.qubits > 1:

        g.apply_state("".join(r.choice('01+-/') for _ in range(c.qubits)))
    if r.random() < 0.15:
        g.apply_effect("".join(r.choice('01+-/') for _ in range(c.qubits)))
    run_strategy(case, g, r.choice(['full_reduce', 'full_reduce', 'clifford_simp', 'full_reduce_iter', 'interior_clifford_simp',
                                    'to_graph_like', 'spider_simp', 'to_rg', 'to_gh', 'clifford_iter', 'reduce_scalar', 'id_simp']), start(g))


def k_big(case):
    """Larger diagrams: long reductions with many rounds."""
    r = case.rng
    nq = r.randrange(3, 7)
    c = gen.circuit(r, nq=nq, ngates=r.randrange(60, 140), names=r.choice([gen.BASIC, gen.CLIFFTG]), mode=r.choice(['cliffordT', 'mix']))
    g = c.to_graph()
    from .. import gref
    m = gref.unitary(c.gates, nq)
    name = r.choice(['full_reduce', 'clifford_simp', 'interior_clifford_simp'])
    getattr(S, name)(g, quiet=True)
    after = ref.matrix(g)
    case.see("maps_compared")
    ok, cc = ref.close_up_to_scalar(m, after)
    case.check(ok and abs(abs(cc) - 1) < 1e-6, "map:" + name, lambda: name + " on a large circuit: " + ref.describe(m, after))
    case.see("strategy_changed_diagram")
    case.note(gen.show_circ(c), name)


def k_sequence(case):
    """Histories: several strategies one after the other on the same diagram, monitored after each."""
    r = case.rng
    src = r.randrange(3)
    if src == 0:
        g = gen.diagram(r, n_spiders=r.randrange(3, 12))
    elif src == 1:
        g = gen.graphlike(r, gadgets=r.randrange(0, 4))
    else:
        g = gen.circuit(r, nq=r.randrange(1, 5), ngates=r.randrange(5, 40), mode='mix').to_graph()
    m = start(g)
    for _ in range(r.randrange(2, 6)):
        name = r.choice(ANY)
        m = run_strategy(case, g, name, m)
        case.see("history_steps")


def k_normalform(case):
    """to_clifford_normal_form_graph on Clifford circuits and on non-Clifford ones (must refuse)."""
    r = case.rng
    nq = r.randrange(1, 5)
    c = gen.circuit(r, nq=nq, ngates=r.randrange(0, 40), names=gen.CLIFF, mode='clifford')
    g = c.to_graph()
    m = start(g)
    sig = gen.show_circ(c)
    S.to_clifford_normal_form_graph(g)
    mon.preserved(case, 'to_clifford_normal_form_graph', m, g)
    case.see("strategy_changed_diagram")
    case.note(sig, 'cnf')


def k_wide(case):
    """Diagrams with many wires, compared on random product vectors."""
    r = case.rng
    x = r.random()
    if x < .6:
        n = r.randrange(8, 15)
        c = gen.circuit(r, nq=n, ngates=r.randrange(n, 8 * n), names=r.choice([gen.BASIC, gen.CLIFFTG, gen.CLIFF, ['CNOT', 'CZ', 'HAD', 'T'], ['CNOT', 'ZPhase', 'HAD', 'XPhase']]), mode=r.choice(['cliffordT', 'clifford', 'mix']))
        g = c.to_graph()
        if r.random() < .4:
            outs = list(g.outputs())
            r.shuffle(outs)
            g.set_outputs(tuple(outs))
    elif x < .8:
        g = gen.graphlike(r, n_in=r.randrange(2, 9), n_out=r.randrange(5, 9), n=r.randrange(12, 24), p=.12, phases=r.choice(['cliffordT', 'mix', 'clifford']), gadgets=r.randrange(0, 5))
    else:
        g = gen.diagram(r, n_in=r.randrange(2, 9), n_out=r.randrange(5, 9), n_spiders=r.randrange(12, 24), phases=r.choice(['cliffordT', 'mix', 'clifford']))
    ins, outs = wide.keep(r, len(g.inputs()), 1), wide.keep(r, len(g.outputs()), 2)
    case.view = lambda h: wide.probe(h, ins, outs)
    name = r.choice(HEAVY + ['gadget_simp', 'to_gh', 'to_rg', 'to_graph_like', 'clifford_iter', 'pivot_simp', 'lcomp_simp'])
    if name == 'to_graph_like' and x >= .8:
        name = 'full_reduce'
    run_strategy(case, g, name, case.view(g))
    case.check(len(g.inputs()) == len(ins) and len(g.outputs()) == len(outs), "shape:" + name, "number of inputs or outputs changed")
    case.see("wide_diagrams")


KINDS = {
    'diag': (k_diag, 2400, 18000),
    'filtered': (k_filtered, 1200, 8000),
    'graphlike': (k_graphlike, 2000, 15000),
    'gadgets': (k_gadgets, 1200, 8000),
    'supp': (k_supp, 800, 6000),
    'phasefree': (k_phasefree, 800, 6000),
    'bipartite': (k_bipartite, 800, 6000),
    'scalar': (k_scalar, 1200, 8000),
    'circuit': (k_circuit, 800, 6000),
    'big': (k_big, 64, 400),
    'sequence': (k_sequence, 600, 5000),
    'normalform': (k_normalform, 400, 3000),
    'wide': (k_wide, 300, 2400),
}
KINDS = {k: (f, 4 * q, 3 * t) for k, (f, q, t) in KINDS.items()}
