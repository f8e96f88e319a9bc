"""P04: every operation of the diagram editor is sound on any selection."""
from fractions import Fraction
from .. import gen, ref, mon
from ..run import Skip
import pyzx as zx
from pyzx.graph import Graph
from pyzx.utils import VertexType, EdgeType
from pyzx import editor_actions as EA
import json

OPS = sorted(EA.operations)
RULE = ("random diagrams (Z/X spiders, H-boxes, Z-boxes, W nodes) x editor operation x selection; non-trivial when the operation found a match and was applied; "
        "distinct by (diagram, operation, matches)")
ASSUMPTIONS = ["operations are applied the way the editor does: matcher on the selection, rule, remove edges, remove vertices, add edge table",
               "a rewrite that would need a parallel edge which simple graphs cannot hold may be refused with a ValueError",
               "floating-point comparison at 1e-7 relative tolerance (1e-6 with Z-boxes, whose labels are rounded)"]
NEED = ["maps_compared", "selections_respected"] + ["applied:" + o for o in OPS]


def do_op(case, g, op, m0):
    r = case.rng
    d = EA.operations[op]
    sig = gen.show(g)
    edges = d["type"] == EA.MATCHES_EDGES
    univ = list(g.edges()) if edges else list(g.vertices())
    p = r.choice([1, 1, .6, .3])
    sel = set(x for x in univ if r.random() < p)
    s0 = mon.snapshot(g)
    matches = d["matcher"](g, lambda x: x in sel)
    # finding matches on a plain selection highlights buttons: it must leave the diagram alone
    case.check(mon.snapshot(g) == s0, "matcher-mutates:" + op, lambda: "looking for %s matches changed %s" % (op, sig))
    if not sel:
        case.check(not matches, "selection:" + op, lambda: "matches %s on an empty selection" % (matches,))
    case.see("selections_respected")
    if not matches:
        case.see("no_match:" + op)
        return m0
    boxes = any(int(g.type(v)) == 6 for v in g.vertices()) or op == 'z_to_z_box'
    ms = list(matches)
    try:
        etab, rv, re, _ = d["rule"](g, matches)
        g.remove_edges(re)
        g.remove_vertices(rv)
        g.add_edge_table(etab)
    except ValueError as e:
        if 'unreducible' in str(e):
            raise Skip()
        raise
    m1 = mon.preserved(case, op, m0, g, atol=1e-6 if boxes else 1e-11)
    case.see("applied:" + op)
    case.see("matches_applied", len(ms))
    if len(ms) > 1:
        case.see("parallel:" + op)
    if op == 'to_z' or op == 'to_x':
        want = VertexType.Z if op == 'to_z' else VertexType.X
        case.check(all(g.type(v) == want for v in ms), "post:" + op, "some selected spider did not change colour")
    case.note(sig, op, repr(ms))
    case.sample("%s %s on %s" % (op, repr(ms)[:100], sig))
    return m1


def run(case, g, ops, n=2):
    m = ref.matrix(g)
    for _ in range(n):
        m = do_op(case, g, case.rng.choice(ops), m)


ZXOPS = ['spider', 'to_z', 'to_x', 'rem_id', 'id_z', 'copy', 'pauli', 'bialgebra', 'euler', 'lcomp', 'pivot', 'z_to_z_box']
HOPS = ['had2edge', 'fuse_hbox', 'mult_hbox', 'copy', 'pauli', 'bialgebra', 'id_z', 'euler', 'rem_id', 'spider', 'to_z', 'to_x']


def k_zx(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(1, 9), phases=r.choice(['mix', 'pauli', 'clifford', 'wild', 'zero']), ph=r.choice([.1, .4, .8]), px=r.choice([0, .3, .5]))
    run(case, g, ZXOPS)


def k_gl(case):
    r = case.rng
    g = gen.graphlike(r, n=r.randrange(1, 10), phases=r.choice(['mix', 'clifford', 'pauli']))
    run(case, g, ['lcomp', 'pivot', 'lcomp', 'pivot', 'copy', 'euler', 'to_x', 'id_z', 'pauli'])


def k_h(case):
    r = case.rng
    g = gen.mixed(r, kinds=r.choice(['ZH', 'ZXH', 'ZXHH', 'H', 'ZXHB']), n=r.randrange(1, 8), phases=r.choice(['mix', 'pauli', 'clifford']))
    run(case, g, HOPS)


def k_w(case):
    r = case.rng
    g = gen.mixed(r, kinds=r.choice(['W', 'ZXW', 'ZW', 'ZXBW']), n=r.randrange(2, 6))
    run(case, g, ['fuse_w', 'fuse_w', 'z_to_z_box', 'spider', 'rem_id', 'id_z'])


def k_had(case):
    """Arity-2 H-boxes in chains, in parallel, between boundaries."""
    r = case.rng
    g = Graph()
    n = r.randrange(1, 5)
    sp = [g.add_vertex(r.choice([VertexType.Z, VertexType.Z, VertexType.X, VertexType.H_BOX]), i, 1) for i in range(n)]
    for v in sp:
        if r.random() < .5:
            g.set_phase(v, gen.phase(r, 'mix') % 2)
    outs = []
    for v in sp:
        for _ in range(r.randrange(0, 2)):
            o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
            g.add_edge((v, o), r.choice([EdgeType.SIMPLE, EdgeType.SIMPLE, EdgeType.HADAMARD]))
            outs.append(o)
    for _ in range(r.randrange(1, 6)):
        h = g.add_vertex(VertexType.H_BOX, 1, 1, phase=1 if r.random() < .85 else Fraction(1, 2))
        a, b = r.choice(sp), r.choice(sp)
        for x in (a, b):
            if r.random() < .15:
                x = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
                outs.append(x)
            if not g.connected(h, x):
                g.add_edge((h, x), EdgeType.SIMPLE if r.random() < .8 else EdgeType.HADAMARD)
        if r.random() < .5:
            sp.append(h)
    gen.split(r, g, outs)
    run(case, g, ['had2edge', 'had2edge', 'fuse_hbox', 'copy', 'pauli', 'mult_hbox'])


def k_par(case):
    """H-boxes with the same connectivity, directly or via NOTs."""
    r = case.rng
    g = parallel_hboxes(r)
    run(case, g, ['mult_hbox', 'mult_hbox', 'mult_hbox', 'pauli', 'copy'])


def not_gate(r, g, v, h, miss=0):
    """Joins v and h by a NOT gate or, with probability ``miss`` per detail, by something that only resembles one."""
    ty, et = r.choice([(VertexType.X, EdgeType.SIMPLE), (VertexType.Z, EdgeType.HADAMARD)])
    x = g.add_vertex(ty, 1, 2, phase=1 if r.random() >= miss else r.choice([0, Fraction(1, 2)]))
    for w in (v, h):
        g.add_edge((w, x), et if r.random() >= miss else EdgeType.SIMPLE if et == EdgeType.HADAMARD else EdgeType.HADAMARD)
    return x


def parallel_hboxes(r, exact=None):
    g = Graph()
    n = r.randrange(1, 4)
    px = r.choice([.1, .1, .4])
    sp = [g.add_vertex(VertexType.Z if r.random() >= px else VertexType.X, i, 1) for i in range(n)]
    outs = []
    for v in sp:
        if r.random() < .4:
            g.set_phase(v, gen.phase(r, 'mix') % 2)
        for _ in range(r.randrange(0, 3)):
            o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
            g.add_edge((v, o), r.choice([EdgeType.SIMPLE, EdgeType.SIMPLE, EdgeType.HADAMARD]))
            outs.append(o)
    base = {v: r.random() < .3 for v in sp}
    for _ in range(r.randrange(2, 5)):
        h = g.add_vertex(VertexType.H_BOX, 1, 3)
        g.set_phase(h, gen.phase(r, r.choice(['pauli', 'mix'])) % 2 if r.random() < .6 else Fraction(1))
        for v in sp:
            if r.random() < .08:
                continue
            neg = base[v] ^ (r.random() < .15)
            had = int(g.type(v)) == 2
            if r.random() < .05:
                had = not had
            if not neg:
                g.add_edge((v, h), EdgeType.HADAMARD if had else EdgeType.SIMPLE)
            else:
                not_gate(r, g, v, h, .1)
        for _ in range(r.randrange(0, 2) if r.random() < .3 else 0):
            z = g.add_vertex(VertexType.Z, 1, 4, phase=0)
            g.add_edge((z, h), EdgeType.SIMPLE)
    gen.split(r, g, outs)
    g.scalar = gen.scalar(r)
    return g


def k_copy(case):
    """Arity-1 states next to spiders and H-boxes."""
    r = case.rng
    g = gen.mixed(r, kinds=r.choice(['ZX', 'ZXH', 'ZH', 'H', 'ZXHB']), n=r.randrange(1, 5), phases=r.choice(['mix', 'pauli']), density=.2)
    sp = [v for v in g.vertices() if int(g.type(v)) in (1, 2, 3)]
    if not sp:
        raise Skip()
    for _ in range(r.randrange(1, 4)):
        v = g.add_vertex(r.choice([VertexType.Z, VertexType.X, VertexType.H_BOX]), 1, 1, phase=r.choice([0, 1]))
        g.add_edge((v, r.choice(sp)), r.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
        if r.random() < .2:
            sp.append(v)
    run(case, g, ['copy', 'copy', 'pauli'])


def k_pauli(case):
    """pi spiders next to spiders and H-boxes."""
    r = case.rng
    g = gen.mixed(r, kinds=r.choice(['ZX', 'ZXH', 'ZH', 'H', 'ZX']), n=r.randrange(1, 6), phases='mix', density=.3)
    for e in list(g.edges()):
        if r.random() < .3:
            s, t = g.edge_st(e)
            et = g.edge_type(e)
            g.remove_edge(e)
            v = g.add_vertex(r.choice([VertexType.Z, VertexType.X]), 1, 1, phase=1)
            g.add_edge((s, v), et)
            g.add_edge((v, t), r.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
    run(case, g, ['pauli', 'pauli', 'rem_id', 'copy'])


def k_bialg(case):
    r = case.rng
    g = Graph()
    outs = []
    for comp in range(r.randrange(1, 3)):
        a = [g.add_vertex(VertexType.X, i, 1) for i in range(r.randrange(1, 3))]
        b = [g.add_vertex(r.choice([VertexType.Z, VertexType.Z, VertexType.H_BOX]), i, 2) for i in range(r.randrange(1, 3))]
        for x in a:
            for y in b:
                if r.random() < .8:
                    g.add_edge((x, y), EdgeType.HADAMARD if r.random() < .06 else EdgeType.SIMPLE)
        for x in a + b:
            for _ in range(r.randrange(0, 3)):
                if len(outs) > 6:
                    break
                o = g.add_vertex(VertexType.BOUNDARY, len(outs), 4)
                g.add_edge((o, x), EdgeType.HADAMARD if r.random() < .1 else EdgeType.SIMPLE)
                outs.append(o)
    gen.split(r, g, outs)
    run(case, g, ['bialgebra', 'bialgebra', 'spider', 'to_z'])


def k_euler(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(1, 6), phases=r.choice(['clifford', 'mix']), ph=.7, bare=.3) if r.random() < .5 else gen.mixed(r, kinds='ZXH', ph=.7)
    run(case, g, ['euler', 'id_z', 'euler'])


def k_buttons(case):
    """operations_to_js lists every operation, inactive, with its text and tooltip."""
    js = json.loads(EA.operations_to_js())
    case.check(set(js) == set(EA.operations), "buttons", "the editor's button list is not the operation table")
    for k, v in js.items():
        case.check(v == {"active": False, "text": EA.operations[k]["text"], "tooltip": EA.operations[k]["tooltip"]}, "buttons", k)


KINDS = {'zx': (k_zx, 6000, 50000), 'gl': (k_gl, 4000, 30000), 'h': (k_h, 6000, 50000), 'w': (k_w, 2500, 20000), 'had': (k_had, 4000, 30000),
         'par': (k_par, 4000, 30000), 'copy': (k_copy, 4000, 30000), 'pauli': (k_pauli, 4000, 30000), 'bialg': (k_bialg, 2500, 20000), 'euler': (k_euler, 2500, 20000),
         'buttons': (k_buttons, 1, 1)}
KINDS = {k: (f, 3 * q, 3 * t) if k != "buttons" else (f, q, t) for k, (f, q, t) in KINDS.items()}
