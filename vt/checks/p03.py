"""P03: the interactive rules (fixed location) are sound, predicted by their check, and applicable where documented."""
from fractions import Fraction
import numpy as np
from .. import gen, ref, mon
from ..run import Skip
import pyzx as zx
from pyzx import basicrules as B
from pyzx.graph import Graph
from pyzx.utils import VertexType, EdgeType

RULE = ("random diagrams (Z/X spiders, Z-boxes, W nodes, H-boxes; simple and multigraph backend) x interactive rule x location; non-trivial when the rule "
        "applied; distinct by (diagram, rule, location)")
ASSUMPTIONS = ["a rewrite that would need a parallel edge which simple graphs cannot hold may be refused with a ValueError",
               "on the multigraph backend only fusion and colour change are driven on diagrams with parallel edges",
               "floating-point comparison at 1e-7 relative tolerance (1e-6 with Z-boxes, whose labels are rounded)"]
ONEV = ['color_change', 'copy_X', 'copy_Z', 'pi_commute_X', 'pi_commute_Z', 'remove_id']
TWOV = ['strong_comp', 'fuse']
NEED = ["maps_compared", "refusals_unchanged", "checks_compared", "diagram_color_changes"] + ["applied:" + r for r in ONEV + TWOV] + ["applied:fuse_w"]


def pauli(p):
    return p in (0, 1)


def edges_between(g, a, b):
    res = []
    for e in g.edges():
        s, t = g.edge_st(e)
        if {s, t} == {a, b}:
            res.append(int(g.edge_type(e)))
    return res


def expected(g, name, a, b=None):
    """Where the documented pattern is present (None: not specified)."""
    T = lambda v: int(g.type(v))
    if name == 'color_change':
        return T(a) in (1, 2)
    if name in ('pi_commute_Z', 'pi_commute_X'):
        return T(a) == (1 if name[-1] == 'Z' else 2)
    if name in ('copy_X', 'copy_Z'):
        mine, other = (2, 1) if name[-1] == 'X' else (1, 2)
        if T(a) != mine or not pauli(g.phase(a)) or g.vertex_degree(a) != 1:
            return False
        n = next(iter(g.neighbors(a)))
        return T(n) == other and edges_between(g, a, n) == [1] or (T(n) == mine and edges_between(g, a, n) == [2] and None)
    if name == 'remove_id':
        if g.vertex_degree(a) != 2:
            return False
        if T(a) in (1, 2):
            return g.phase(a) == 0
        if T(a) == 6:
            return complex(g.vdata(a, 'label', 1)) == 1
        return None
    if name == 'strong_comp':
        return {T(a), T(b)} == {1, 2} and pauli(g.phase(a)) and pauli(g.phase(b)) and edges_between(g, a, b) == [1]
    if name == 'fuse':
        if T(a) in (4, 5) or T(b) in (4, 5):
            return None
        return 1 in edges_between(g, a, b) and ((T(a) == T(b) == 2) or (T(a) in (1, 6) and T(b) in (1, 6)))


def step(case, g, name, locs, m0):
    sig = gen.show(g)
    exp = expected(g, name, *locs)
    boxes = any(int(g.type(v)) == 6 for v in g.vertices())
    hadw = any(int(g.type(v)) in (4, 5) for v in locs)
    s0 = mon.snapshot(g)
    t0 = {v: (int(g.type(v)), g.phase(v)) for v in locs}
    c = bool(getattr(B, 'check_' + name)(g, *locs))
    case.check(mon.snapshot(g) == s0, "check-mutates:" + name, lambda: "check_%s%s changed the diagram %s" % (name, locs, sig))
    try:
        r = bool(getattr(B, name)(g, *locs))
    except ValueError as e:
        if 'unreducible' in str(e):
            raise Skip()
        raise
    case.see("checks_compared")
    case.check(c == r, "check-disagrees:" + name, lambda: "check_%s%s is %s but the rule returned %s on %s" % (name, locs, c, r, sig))
    if exp is not None:
        case.check(bool(exp) == r, "applicability:" + name, lambda: "%s%s returned %s on %s where the pattern is %s" % (name, locs, r, sig, "present" if exp else "absent"))
    if not r:
        case.check(mon.snapshot(g) == s0, "refused-but-changed:" + name, lambda: "%s%s returned False but changed %s" % (name, locs, sig))
        case.see("refusals_unchanged")
        return m0
    m1 = mon.preserved(case, name, m0, g, atol=1e-6 if boxes else 1e-11)
    vs = set(g.vertices())
    bad = None
    if name == 'color_change':
        bad = None if int(g.type(locs[0])) == 3 - t0[locs[0]][0] else "vertex type not toggled"
    elif name == 'remove_id' or name.startswith('copy'):
        bad = "the vertex is still there" if locs[0] in vs else None
    elif name == 'strong_comp':
        bad = "a composed spider is still there" if locs[0] in vs or locs[1] in vs else None
    elif name == 'fuse':
        bad = "both vertices are still there" if locs[0] in vs and locs[1] in vs else None
    elif name.startswith('pi'):
        v = locs[0]
        bad = None if (g.phase(v) + t0[v][1]) % 2 == 0 else "phase not negated (%s -> %s)" % (t0[v][1], g.phase(v))
    case.check(bad is None, "post:" + name, lambda: "after %s%s on %s: %s" % (name, locs, sig, bad))
    case.see("applied:" + ('fuse_w' if hadw and name == 'fuse' else name))
    case.note(sig, name, locs)
    case.sample("%s%s on %s" % (name, locs, sig))
    return m1


def pick(case, g):
    r = case.rng
    vs = sorted(g.vertices())
    want = r.random() < .8
    if not vs:
        raise Skip()
    best = None
    for _ in range(40):
        name = r.choice(ONEV + TWOV * 3)
        if name in ONEV:
            loc = (r.choice(vs),)
        else:
            es = list(g.edges())
            if es and r.random() < .85:
                loc = g.edge_st(r.choice(es))
                loc = tuple(loc) if r.random() < .5 else (loc[1], loc[0])
                if loc[0] == loc[1]:
                    continue
            elif len(vs) > 1:
                loc = tuple(r.sample(vs, 2))
            else:
                continue
        best = name, loc
        if not want or expected(g, name, *loc):
            return best
    if best is None:
        raise Skip()
    return best


def k_any(case):
    r = case.rng
    fam = r.choice(['ZX', 'ZX', 'ZXB', 'ZXW', 'ZXH', 'ZXHBW'])
    g = gen.mixed(r, kinds=fam, n=r.randrange(1, 8), phases=r.choice(['mix', 'pauli', 'pauli', 'clifford', 'wild']))
    m = ref.matrix(g)
    for _ in range(4):
        name, loc = pick(case, g)
        m = step(case, g, name, loc, m)


def k_pauli(case):
    """Degree-one Pauli spiders and sparse bipartite-coloured diagrams: copying and strong complementarity."""
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(2, 8), phases='pauli', px=.5, ph=.2, density=.3)
    sp = [v for v in g.vertices() if int(g.type(v)) in (1, 2)]
    for _ in range(r.randrange(1, 3)):
        w = r.choice(sp)
        if r.random() < .4:
            g.set_phase(w, gen.phase(r, 'mix'))
        v = g.add_vertex(3 - int(g.type(w)) if r.random() < .85 else r.choice([1, 2]), 0, 1, phase=r.choice([0, 1]))
        g.set_type(v, VertexType.Z if int(g.type(v)) == 1 else VertexType.X)
        g.add_edge((v, w), EdgeType.SIMPLE if r.random() < .8 else EdgeType.HADAMARD)
    m = ref.matrix(g)
    for _ in range(4):
        name, loc = pick(case, g)
        m = step(case, g, name, loc, m)


def k_ids(case):
    """Identity spiders everywhere (also on wires between boundaries, next to boxes, in parallel wires)."""
    r = case.rng
    g = gen.mixed(r, kinds=r.choice(['ZX', 'ZX', 'ZXH', 'ZXB']), n=r.randrange(1, 6))
    for e in list(g.edges()):
        if r.random() < .4:
            s, t = g.edge_st(e)
            et = g.edge_type(e)
            g.remove_edge(e)
            k = r.choice(['Z', 'X', 'B', 'Z'])
            v = g.add_vertex({'Z': VertexType.Z, 'X': VertexType.X, 'B': VertexType.Z_BOX}[k], 1, 1)
            if k == 'B':
                g.set_vdata(v, 'label', r.choice([1, 1, 1, -1, 2]))
            elif r.random() < .2:
                g.set_phase(v, r.choice([1, Fraction(1, 4)]))
            g.add_edge((s, v), et)
            g.add_edge((v, t), EdgeType.SIMPLE if r.random() < .7 else EdgeType.HADAMARD)
    m = ref.matrix(g)
    for _ in range(4):
        vs = [v for v in sorted(g.vertices()) if g.vertex_degree(v) == 2]
        if not vs:
            break
        m = step(case, g, 'remove_id', (r.choice(vs),), m)


def k_multi(case):
    """Multigraph backend, no parallel edges beforehand: every rule."""
    r = case.rng
    g = gen.mixed(r, backend='multigraph', kinds=r.choice(['ZX', 'ZX', 'ZXB', 'ZXH']), n=r.randrange(1, 8), phases=r.choice(['mix', 'pauli', 'clifford']))
    if len({frozenset(g.edge_st(e)) for e in g.edges()}) != g.num_edges():
        raise Skip()
    g.set_auto_simplify(r.random() < .5)
    m = ref.matrix(g)
    name, loc = pick(case, g)
    m = step(case, g, name, loc, m)
    case.see("multigraph_applied")


def k_par(case):
    """Multigraph backend with parallel edges and self-loops: fusion and colour change."""
    r = case.rng
    g = gen.mixed(r, backend='multigraph', kinds='ZX', n=r.randrange(2, 6), par=.8, density=1.5, loops=.25, auto=r.random() < .5)
    m = ref.matrix(g)
    for _ in range(3):
        es = [e for e in g.edges() if len(set(g.edge_st(e))) == 2]
        if es and r.random() < .8:
            s, t = g.edge_st(r.choice(es))
            m = step(case, g, 'fuse', (s, t) if r.random() < .5 else (t, s), m)
        else:
            m = step(case, g, 'color_change', (r.choice(sorted(g.vertices())),), m)
        case.see("parallel_edge_steps")


def k_w(case):
    """Fusion of W nodes."""
    r = case.rng
    g = gen.mixed(r, kinds='W', n=r.randrange(2, 5), ph=.1, n_out=r.randrange(0, 4))
    m = ref.matrix(g)
    for _ in range(2):
        ws = [v for v in sorted(g.vertices()) if int(g.type(v)) in (4, 5)]
        if len(ws) < 2:
            break
        es = [g.edge_st(e) for e in g.edges() if all(int(g.type(x)) in (4, 5) for x in g.edge_st(e)) and int(g.edge_type(e)) != 3]
        a, b = r.choice(es) if es and r.random() < .8 else r.sample(ws, 2)
        m = step(case, g, 'fuse', (a, b) if r.random() < .5 else (b, a), m)


def k_cc(case):
    """color_change_diagram conjugates the map with Hadamards on every input and output."""
    r = case.rng
    back = r.choice(['simple', 'multigraph'])
    g = gen.diagram(r, n_spiders=r.randrange(1, 8)) if back == 'simple' else gen.mixed(r, backend='multigraph', n=r.randrange(1, 7), par=.4)
    m = ref.matrix(g)
    sig = gen.show(g)
    B.color_change_diagram(g)
    a, b = len(g.inputs()), len(g.outputs())
    hi = hk = np.eye(1)
    for _ in range(a):
        hi = np.kron(hi, ref.HADM)
    for _ in range(b):
        hk = np.kron(hk, ref.HADM)
    # the diagram of opposite colours is the original with Hadamards on all its boundaries
    io = set(g.inputs()) | set(g.outputs())
    if any(set(g.edge_st(e)) <= io for e in g.edges()):
        raise Skip()  # a bare wire has no colour: both of its ends toggle the same edge
    want = hk @ m @ hi
    mon.preserved(case, 'color_change_diagram', want, g)
    case.see("diagram_color_changes")
    case.note(sig, 'ccd')


KINDS = {'any': (k_any, 9000, 60000), 'pauli': (k_pauli, 9000, 60000), 'ids': (k_ids, 4000, 30000), 'multi': (k_multi, 6000, 40000),
         'par': (k_par, 4000, 30000), 'w': (k_w, 4000, 25000), 'cc': (k_cc, 1500, 10000)}
KINDS = {k: (f, 3 * q, 3 * t) for k, (f, q, t) in KINDS.items()}
