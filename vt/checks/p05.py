"""P05: simplification of ZH-diagrams (H-boxes) preserves the linear map."""
from fractions import Fraction
from .. import gen, ref, mon
from ..run import Skip
import pyzx as zx
from pyzx.graph import Graph
from pyzx.utils import VertexType, EdgeType
from pyzx import hsimplify as HS, hrules as HR
from .p04 import parallel_hboxes, not_gate
from .p06 import nf_spider, nf_id

STRATS = ['hadamard_simp', 'to_hypergraph_form', 'from_hypergraph_form', 'par_hbox_simp', 'par_hbox_intro_simp', 'copy_simp', 'hspider_simp',
          'hbox_parallel_not_remove_simp', 'hpivot_simp', 'zh_simp']
UPTO = ()
RULE = ("random ZH-diagrams (Z/X spiders, H-boxes of any arity and phase, parallel H-boxes, NOTs, hypergraph states, Toffoli circuits) x ZH strategy; non-trivial when the "
        "strategy changed the diagram; distinct by (diagram, strategy)")
ASSUMPTIONS = ["simple-graph backend; a rewrite that would need a parallel edge which simple graphs cannot hold may be refused with a ValueError",
               "floating-point comparison at 1e-7 relative tolerance"]
NEED = ["maps_compared"] + ["changed:" + s for s in STRATS]


def left_hadamard(g):
    return [v for v in g.vertices() if int(g.type(v)) == 3 and g.vertex_degree(v) == 2 and g.phase(v) == 1]


def left_fusable(g):
    out = []
    for e in g.edges():
        s, t = g.edge_st(e)
        if int(g.edge_type(e)) == 2 and int(g.type(s)) == int(g.type(t)) == 3 and 1 in (g.phase(s), g.phase(t)):
            out.append((s, t))
    return out


def left_parallel(g):
    """H-boxes on the same spiders, up to the same NOTs."""
    seen = {}
    for h in g.vertices():
        if int(g.type(h)) != 3:
            continue
        plain, nots = set(), set()
        for v in g.neighbors(h):
            k, ty = int(g.edge_type(g.edge(v, h))), int(g.type(v))
            if (k, ty) in ((1, 1), (2, 2)):
                plain.add(v)
                continue
            w = [w for w in g.neighbors(v) if w != h]
            if (k, ty) not in ((1, 2), (2, 1)) or g.phase(v) != 1 or g.vertex_degree(v) != 2 or int(g.type(w[0])) != 1 or int(g.edge_type(g.edge(v, w[0]))) != k:
                break
            nots.add(w[0])
        else:
            seen.setdefault((frozenset(plain), frozenset(nots)), []).append(h)
    return [hs for hs in seen.values() if len(hs) > 1]


def left_copy(g):
    out = []
    for v in g.vertices():
        if int(g.type(v)) in (1, 2, 3) and g.vertex_degree(v) == 1 and g.phase(v) in (0, 1):
            w = list(g.neighbors(v))[0]
            t, u = {3: 1}.get(int(g.type(v)), int(g.type(v))), int(g.type(w))
            if u in (1, 2) and (t == u) == (int(g.edge_type(g.edge(v, w))) == 2):
                out.append((v, w))
    return out


LEFT = {'hadamard_simp': left_hadamard, 'hspider_simp': left_fusable, 'par_hbox_simp': left_parallel, 'copy_simp': left_copy,
        'zh_simp': lambda g: left_fusable(g) or left_parallel(g) or left_copy(g) or nf_spider(g) or nf_id(g)}


def run(case, g, names, n=1):
    r = case.rng
    m = ref.matrix(g)
    for _ in range(n):
        name = r.choice(names)
        sig = gen.show(g)
        f = getattr(HS, name)
        kw = {}
        try:
            if name in ('to_hypergraph_form', 'from_hypergraph_form'):
                f(g)
            else:
                if name not in ('zh_simp', 'hpivot_simp') and r.random() < .2:
                    univ = list(g.edges()) if name == 'hspider_simp' else list(g.vertices())
                    sel = set(x for x in univ if r.random() < .5)
                    kw['matchf'] = lambda x: x in sel
                f(g, quiet=True, **kw)
        except ValueError as e:
            if 'unreducible' in str(e):
                raise Skip()
            raise
        m = mon.preserved(case, name, m, g, exact=name not in UPTO)
        if name == 'to_hypergraph_form':
            for e in g.edges():
                s, t = g.edge_st(e)
                if int(g.edge_type(e)) == 2 and 0 not in (int(g.type(s)), int(g.type(t))):
                    case.fail("post:" + name, "an interior Hadamard edge remains in hypergraph form")
                if int(g.type(s)) == 3 and int(g.type(t)) == 3:
                    case.fail("post:" + name, "two H-boxes are adjacent in hypergraph form")
            if any(int(g.type(v)) == 2 or (int(g.type(v)) == 1 and g.phase(v) != 0) for v in g.vertices()):
                case.fail("post:" + name, "an X spider or a spider phase remains in hypergraph form")
        if name in LEFT and not kw:
            w = LEFT[name](g)
            case.check(not w, "left:" + name, lambda: "after %s on %s %s of %s is left" % (name, sig, w, gen.show(g)))
            case.see("left_checked:" + name)
        if gen.show(g) != sig:
            case.see("changed:" + name)
            case.note(sig, name)
            case.sample("%s on %s" % (name, sig))
        else:
            case.see("unchanged:" + name)


def k_mixed(case):
    r = case.rng
    g = gen.mixed(r, kinds=r.choice(['ZH', 'ZXH', 'ZXHH', 'ZZH']), n=r.randrange(1, 8), phases=r.choice(['mix', 'pauli', 'clifford']), hphase=r.choice([None, 'pauli', 'mix']))
    run(case, g, STRATS)


def k_par(case):
    g = parallel_hboxes(case.rng)
    run(case, g, ['par_hbox_simp', 'par_hbox_intro_simp', 'par_hbox_intro_simp', 'hbox_parallel_not_remove_simp', 'zh_simp', 'copy_simp'])


def k_intro(case):
    """Two H-boxes on the same spiders that differ in exactly one NOT."""
    r = case.rng
    g = Graph()
    n = r.randrange(1, 4)
    sp = [g.add_vertex(VertexType.Z, i, 1, phase=gen.phase(r, 'mix') % 2 if r.random() < .4 else 0) for i in range(n)]
    outs = []
    for v in sp:
        for _ in range(r.randrange(0, 3)):
            o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
            g.add_edge((v, o), r.choice([EdgeType.SIMPLE, EdgeType.SIMPLE, EdgeType.HADAMARD]))
            outs.append(o)
    neg = [r.random() < .4 for _ in sp]
    flip = r.randrange(n)
    ph = gen.phase(r, 'mix') % 2 if r.random() < .7 else Fraction(1)
    nsing = r.randrange(0, 3) if r.random() < .4 else 0
    miss = r.choice([0, 0, .15])
    for k in range(2):
        h = g.add_vertex(VertexType.H_BOX, 1, 3)
        g.set_phase(h, ph if r.random() < .9 else Fraction(1))
        for i, v in enumerate(sp):
            if (neg[i] ^ (k == 1 and i == flip)):
                x = not_gate(r, g, v, h, miss)
                if r.random() < miss:
                    o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
                    g.add_edge((x, o))
                    outs.append(o)
            else:
                g.add_edge((v, h))
        for _ in range(nsing if r.random() < .9 else 1):
            z = g.add_vertex(VertexType.Z, 1, 4, phase=0 if r.random() >= miss / 2 else 1)
            g.add_edge((z, h), EdgeType.SIMPLE if r.random() >= miss / 2 else EdgeType.HADAMARD)
    gen.split(r, g, outs)
    run(case, g, ['par_hbox_intro_simp', 'par_hbox_intro_simp', 'zh_simp'])


def k_not(case):
    """An H-box connected to a spider both directly and via a NOT."""
    r = case.rng
    g = Graph()
    outs = []
    sp = [g.add_vertex(r.choice([VertexType.Z, VertexType.Z, VertexType.Z, VertexType.X]), i, 1, phase=gen.phase(r, 'mix') % 2 if r.random() < .4 else 0) for i in range(r.randrange(1, 4))]
    h = g.add_vertex(VertexType.H_BOX, 1, 3, phase=1 if r.random() < .9 else Fraction(1, 2))
    v = sp[0]
    g.add_edge((v, h), EdgeType.SIMPLE if r.random() < .9 else EdgeType.HADAMARD)
    x = not_gate(r, g, v, h, r.choice([0, 0, .15]))
    for w in sp[1:]:
        if r.random() < .8:
            g.add_edge((w, h), EdgeType.SIMPLE if r.random() < .7 else EdgeType.HADAMARD)
    for w in sp + [h]:
        for _ in range(r.randrange(0, 3)):
            o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
            g.add_edge((w, o), r.choice([EdgeType.SIMPLE, EdgeType.SIMPLE, EdgeType.HADAMARD]))
            outs.append(o)
    gen.split(r, g, outs)
    run(case, g, ['hbox_parallel_not_remove_simp', 'hbox_parallel_not_remove_simp', 'zh_simp'])


def k_hyper(case):
    """Hypergraph-like ZH-diagrams: phase-free Z spiders joined by H-boxes, at most one boundary each."""
    r = case.rng
    g = Graph()
    n = r.randrange(2, 7)
    sp = [g.add_vertex(VertexType.Z, i, 1) for i in range(n)]
    outs = []
    for v in sp:
        if r.random() < .5:
            o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
            g.add_edge((v, o), r.choice([EdgeType.SIMPLE, EdgeType.SIMPLE, EdgeType.HADAMARD]))
            outs.append(o)
    seen = set()
    for _ in range(r.randrange(1, 7)):
        tg = tuple(sorted(r.sample(sp, min(n, r.choice([1, 2, 2, 2, 3, 3, 4])))))
        if tg in seen:
            continue
        seen.add(tg)
        h = g.add_vertex(VertexType.H_BOX, 1, 3, phase=1 if r.random() < .7 or len(tg) == 2 else gen.phase(r, 'cliffordT') % 2)
        for v in tg:
            g.add_edge((v, h))
    k = r.randrange(0, len(outs) + 1)
    g.set_inputs(tuple(outs[:k]))
    g.set_outputs(tuple(outs[k:]))
    g.scalar = gen.scalar(r)
    run(case, g, ['hpivot_simp', 'hpivot_simp', 'zh_simp', 'from_hypergraph_form', 'to_hypergraph_form', 'par_hbox_simp'])


def k_circ(case):
    """Circuits with Toffoli / CCZ gates as ZH-diagrams."""
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(2, 5), ngates=r.randrange(1, 7), names=['HAD', 'CNOT', 'CZ', 'CCZ', 'Tof', 'CCZ', 'S', 'T', 'NOT'])
    g = c.to_graph(zh=True)
    if r.random() < .3:
        g.apply_state(''.join(r.choice('01+-') for _ in range(len(g.inputs()))))
    if r.random() < .2:
        g.apply_effect(''.join(r.choice('01+-') for _ in range(len(g.outputs()))))
    run(case, g, ['zh_simp', 'hpivot_simp', 'to_hypergraph_form', 'zh_simp', 'copy_simp', 'hadamard_simp', 'par_hbox_simp', 'hspider_simp'], n=r.randrange(1, 3))


def k_had(case):
    """Chains of H-boxes of arity two and H-boxes joined by Hadamard edges."""
    r = case.rng
    g = gen.mixed(r, kinds=r.choice(['H', 'HHZ', 'HHX']), n=r.randrange(2, 7), density=.2, hphase='pauli' if r.random() < .6 else 'mix')
    run(case, g, ['hadamard_simp', 'hspider_simp', 'from_hypergraph_form', 'to_hypergraph_form', 'zh_simp', 'copy_simp'])


KINDS = {'mixed': (k_mixed, 6000, 50000), 'par': (k_par, 4000, 30000), 'intro': (k_intro, 3000, 20000), 'not': (k_not, 3000, 20000), 'hyper': (k_hyper, 4000, 30000),
         'circ': (k_circ, 2500, 15000), 'had': (k_had, 4000, 30000)}
KINDS = {k: (f, 6 * q, 4 * t) for k, (f, q, t) in KINDS.items()}
