"""P06: reductions reach their normal form and never raise the number of non-Clifford phases."""
from fractions import Fraction
from .. import gen, ref, mon
from .p01 import notgraphlike
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S
from pyzx.graph import Graph
from pyzx.utils import VertexType, EdgeType

RULE = ("random ZX-diagrams and circuits x reduction strategy; non-trivial when the strategy changed the diagram; distinct by (diagram, strategy)")
ASSUMPTIONS = ["simple-graph backend", "boundaries of the diagram may keep the degenerate spiders that the rules document as excluded"]
NEED = ["normal_forms_checked:" + s for s in ('spider_simp', 'id_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce')] + [
    "clifford_no_interior", "closed_clifford_empty", "tcounts_compared", "zero_means_unchanged", "graph_like_predicate", "already_reduced", "iterators"]


def boundary(g):
    return set(g.inputs()) | set(g.outputs())


def interior(g):
    b = boundary(g)
    return [v for v in g.vertices() if v not in b and not any(n in b for n in g.neighbors(v))]


def tcount(g):
    return sum(1 for v in g.vertices() if int(g.type(v)) in (1, 2) and (Fraction(g.phase(v)) * 2).denominator != 1)


def clifford(p):
    return (Fraction(p) * 2).denominator == 1


def pauli(p):
    return Fraction(p).denominator == 1


def nf_spider(g):
    for e in g.edges():
        s, t = g.edge_st(e)
        if int(g.edge_type(e)) == 1 and int(g.type(s)) == int(g.type(t)) and int(g.type(s)) in (1, 2):
            return "spiders %s and %s of one colour are joined by a plain edge" % (s, t)


def nf_id(g):
    for v in g.vertices():
        if int(g.type(v)) in (1, 2) and g.phase(v) == 0 and g.vertex_degree(v) == 2:
            a, b = g.neighbors(v)
            return "phase-free arity-2 spider %s remains" % v


def nf_interior(g):
    if any(int(g.type(v)) == 2 for v in g.vertices()):
        return "X spider remains"
    w = nf_spider(g) or nf_id(g)
    if w:
        return w
    inn = set(interior(g))
    for v in inn:
        p = g.phase(v)
        if clifford(p) and not pauli(p):
            return "interior spider %s with phase %s remains" % (v, p)
        if pauli(p) and any(n in inn and pauli(g.phase(n)) for n in g.neighbors(v)):
            return "adjacent interior Pauli spiders remain at %s" % v


def nf_clifford(g):
    w = nf_interior(g)
    if w:
        return w
    b = boundary(g)
    inn = set(interior(g))
    for v in inn:
        if not pauli(g.phase(v)):
            continue
        for n in g.neighbors(v):
            if n not in inn and n not in b and sum(x in b for x in g.neighbors(n)) == 1 and pauli(g.phase(n)):
                if not any(g.vertex_degree(x) == 1 for x in g.neighbors(v)):
                    return "interior Pauli spider %s next to boundary Pauli spider %s remains" % (v, n)


def nf_full(g):
    w = nf_interior(g)
    if w:
        return w
    b = boundary(g)
    inn = set(interior(g))
    gad = {}
    for v in inn:
        if pauli(g.phase(v)) and g.vertex_degree(v) > 1:
            leaves = [n for n in g.neighbors(v) if g.vertex_degree(n) == 1 and n not in b]
            if not leaves:
                if any(sum(x in b for x in g.neighbors(n)) > 1 for n in g.neighbors(v)):
                    continue
                return "interior Pauli spider %s is not the axis of a phase gadget" % v
            if len(leaves) == 1:
                key = frozenset(n for n in g.neighbors(v) if n not in leaves)
                if key in gad:
                    return "gadgets %s and %s act on the same spiders" % (gad[key], v)
                gad[key] = v
                if len(key) == 1:
                    return "phase gadget %s acts on a single spider" % v


SINGLE = ('spider_simp', 'id_simp', 'pivot_simp', 'lcomp_simp', 'gadget_simp', 'reduce_scalar')
NF = {'spider_simp': nf_spider, 'id_simp': nf_id, 'interior_clifford_simp': nf_interior, 'clifford_simp': nf_clifford, 'full_reduce': nf_full}


def run(case, g, name):
    sig = gen.show(g)
    t0 = tcount(g)
    n0 = len(list(g.vertices()))
    s0 = mon.snapshot(g)
    if name in NF and case.rng.random() < .2:
        # the same reduction, step by step
        n = 0
        for h, step in getattr(S, name.replace('_simp', '') + '_iter')(g):
            n += 1
            case.check(h is g, "iterator:" + name, "the iterator of %s works on another diagram" % name)
            if n > 2000:
                case.fail("no-termination:" + name, "the iterator of %s does not end on %s" % (name, sig))
        rv = n
        case.see("iterators")
    else:
        stats = S.Stats() if case.rng.random() < .5 else None
        rv = getattr(S, name)(g, quiet=True, stats=stats)
        if stats is not None and name in SINGLE:
            case.check((rv == 0) == (sum(stats.num_rewrites.values()) == 0), "stats:" + name, lambda: "%s returned %s and counted %s on %s" % (name, rv, stats.num_rewrites, sig))
        elif stats is not None and name != 'gadget_simp' and not sum(stats.num_rewrites.values()):
            case.check(not rv, "stats:" + name, lambda: "%s returned %s and counted nothing on %s" % (name, rv, sig))
            case.check(g.num_vertices() == n0, "stats:" + name, lambda: "%s counted no rewrites but changed %s into %s" % (name, sig, gen.show(g)))
    if rv == 0 and name in SINGLE:
        case.check(mon.snapshot(g) == s0, "zero-but-changed:" + name, lambda: "%s returned 0 iterations but changed %s" % (name, sig))
        case.see("zero_means_unchanged")
    t1 = tcount(g)
    case.check(t1 <= t0, "tcount:" + name, lambda: "%s raised the T-count from %d to %d on %s" % (name, t0, t1, sig))
    case.check(zx.tcount(g) == t1, "tcount-function", lambda: "tcount() says %s, the diagram has %d non-Clifford spiders" % (zx.tcount(g), t1))
    case.see("tcounts_compared")
    if name in ('spider_simp', 'id_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce'):
        case.check(len(list(g.vertices())) <= n0 or name in ('full_reduce', 'clifford_simp', 'interior_clifford_simp'), "grew:" + name, "%s added vertices to %s" % (name, sig))
    if name in NF:
        w = NF[name](g)
        case.check(w is None, "normal-form:" + name, lambda: "after %s on %s: %s; result %s" % (name, sig, w, gen.show(g)))
        case.see("normal_forms_checked:" + name)
    if gen.show(g) != sig:
        case.note(sig, name)
        case.sample("%s on %s" % (name, sig))


NAMES = ['spider_simp', 'id_simp', 'interior_clifford_simp', 'clifford_simp', 'full_reduce', 'full_reduce', 'lcomp_simp', 'pivot_simp', 'gadget_simp']


def k_diag(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(1, 16), phases=r.choice(['mix', 'clifford', 'cliffordT', 'wild']), ph=r.choice([.1, .4, .8]), px=r.choice([0, .3, .5]))
    run(case, g, r.choice(NAMES))


def k_gl(case):
    r = case.rng
    closed = r.random() < .15
    g = gen.graphlike(r, n=r.randrange(1, 18), phases=r.choice(['mix', 'clifford', 'cliffordT', 'wild']), gadgets=r.randrange(0, 6), p=r.choice([None, .1, .2]), **(dict(n_in=0, n_out=0) if closed else {}))
    run(case, g, r.choice(NAMES + ['reduce_scalar'] * 5 * closed))


def k_circuit(case):
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(1, 8), ngates=r.randrange(0, 120), names=r.choice([gen.BASIC, gen.CLIFFTG]), mode=r.choice(['cliffordT', 'mix', 'clifford']))
    g = c.to_graph()
    run(case, g, r.choice(NAMES))


def k_cliff(case):
    """Clifford diagrams reduce to (at most) their boundary spiders; closed ones to a number."""
    r = case.rng
    closed = r.random() < .4
    kw = dict(n_in=0, n_out=0) if closed else {}
    if r.random() < .5:
        g = gen.diagram(r, n_spiders=r.randrange(1, 25), phases='clifford', ph=r.choice([.2, .6]), **kw)
    else:
        c = gen.circuit(r, nq=r.randrange(1, 7), ngates=r.randrange(0, 100), names=gen.CLIFF, mode='clifford')
        g = c.to_graph()
        if closed:
            g.apply_state(''.join(r.choice('01+-') for _ in range(c.qubits)))
            g.apply_effect(''.join(r.choice('01+-') for _ in range(c.qubits)))
    sig = gen.show(g)
    S.full_reduce(g)
    g.remove_isolated_vertices()   # spiders that were isolated from the start
    # boundary pivots are defined next to spiders with a single boundary; a spider with several boundaries keeps its neighbours
    b = boundary(g)
    inn = [v for v in interior(g) if not any(sum(x in b for x in g.neighbors(n)) > 1 for n in g.neighbors(v))]
    case.check(not inn, "clifford-interior", lambda: "interior spiders %s remain after full_reduce of the Clifford diagram %s -> %s" % (inn, sig, gen.show(g)))
    case.see("clifford_no_interior")
    if closed:
        case.check(len(list(g.vertices())) == 0, "clifford-closed", lambda: "closed Clifford diagram %s did not reduce to a number" % sig)
        case.see("closed_clifford_empty")
    case.note(sig, 'cliff')


def k_again(case):
    """A fully reduced diagram is a fixed point: every reduction leaves its T-count and normal form."""
    r = case.rng
    g = gen.circuit(r, nq=r.randrange(1, 6), ngates=r.randrange(5, 80), names=gen.CLIFFTG).to_graph()
    S.full_reduce(g)
    n, t = g.num_vertices(), tcount(g)
    sig = gen.show(g)
    S.full_reduce(g)
    case.check(tcount(g) == t and g.num_vertices() == n, "not-fixed-point", lambda: "a second full_reduce changes %s into %s" % (sig, gen.show(g)))
    case.see("already_reduced")


def k_isgl(case):
    """is_graph_like agrees with its definition."""
    r = case.rng
    x = r.random()
    if x < .3:
        g = gen.graphlike(r, bound_h=r.choice([0, .3]))
    elif x < .5:
        g = gen.diagram(r, px=r.choice([0, .2]), ph=r.choice([.5, .9, 1]), n_spiders=r.randrange(1, 6))
    elif x < .7:
        g = gen.diagram(r, px=0, ph=1, n_spiders=r.randrange(1, 6), multi_boundary=r.random() < .5, bare=r.choice([0, .2]))
    else:
        g = gen.mixed(r, kinds='ZXH', n=r.randrange(1, 4), ph=.9)
    types = {int(g.type(v)) for v in g.vertices()}
    b = [v for v in g.vertices() if int(g.type(v)) == 0]
    loose = types <= {0, 1} and all(int(g.edge_type(e)) == 2 for e in g.edges() if all(int(g.type(x)) == 1 for x in g.edge_st(e)))
    strict = loose and notgraphlike(g) is None
    case.check(bool(S.is_graph_like(g)) == loose, "is_graph_like", lambda: "is_graph_like says %s on %s" % (S.is_graph_like(g), gen.show(g)))
    case.check(bool(S.is_graph_like(g, strict=True)) == strict, "is_graph_like:strict", lambda: "is_graph_like(strict) says %s on %s" % (S.is_graph_like(g, strict=True), gen.show(g)))
    case.see("graph_like_predicate")
    case.note(gen.show(g), 'isgl')


KINDS = {'diag': (k_diag, 6000, 60000), 'gl': (k_gl, 6000, 60000), 'circuit': (k_circuit, 3000, 25000), 'cliff': (k_cliff, 5000, 40000), 'again': (k_again, 1500, 12000),
         'isgl': (k_isgl, 4000, 20000)}
KINDS = {k: (f, 3 * q, 3 * t) for k, (f, q, t) in KINDS.items()}
