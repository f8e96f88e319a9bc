"""P17: saving, loading, drawing and differencing of diagrams."""
from collections import Counter
from fractions import Fraction
import copy
import json
import pickle
import re
import warnings
import xml.etree.ElementTree as ET
import numpy as np
from .. import gen, mon, ref
from ..run import Skip
from ..model import Model, differ, of, pair, show, S, HAD, WIO, Z, X, B, H, ZB, WI, WO
from pyzx.graph import Graph
from pyzx.graph.diff import GraphDiff
from pyzx.symbolic import new_var
from pyzx.tikz import to_tikz, tikz_to_graph, to_tikz_sequence
from pyzx.utils import EdgeType, set_z_box_label

RULE = "random diagrams (all vertex and edge types, grounds, vertex data, names, symbolic phases, scalars) on both backends, written and read back; non-trivial when the diagram has at least 3 inner vertices and 3 edges; distinct by (format, diagram)"
ASSUMPTIONS = ["positions have at most two decimals, vertices drawn in TikZ have distinct positions", "vertex data can be represented in JSON", "TikZ does not store scalars, grounds, inputs, outputs and vertex data; differences do not store scalars, grounds, inputs and outputs", "symbolic phases are sums of variables with positive coefficients"]
OPS = ['big', 'json', 'json_twice', 'json_noscalar', 'json_other_backend', 'json_names', 'json_parallel', 'json_symbolic', 'json_vdata', 'json_ground', 'json_big', 'json_complex', 'json_unknown', 'tikz', 'tikz_other_backend', 'tikz_hboundary', 'tikz_parallel', 'tikz_sequence',
       'tikz_refused', 'diff', 'diff_json', 'diff_vertices', 'diff_edges', 'diff_types', 'diff_phases', 'diff_positions', 'diff_vdata', 'diff_etypes', 'diff_empty', 'diff_symbolic', 'graphml', 'pickle', 'deepcopy', 'scalar', 'unchanged', 'zbox', 'wnode', 'hbox', 'foreign', 'foreign_refused', 'foreign_ignored', 'overlap_warned', 'overlap_fused', 'quantomatic', 'quantomatic_flags', 'quantomatic_chain', 'quantomatic_refused', 'quantomatic_old', 'quantomatic_edit', 'legacy_old', 'legacy_crossed', 'legacy_new']
NEED = ['op:' + o for o in OPS] + ['simple', 'multigraph', 'multiauto']


def phase(r):
    return r.choice([0, 1, Fraction(1, 2), Fraction(3, 2), Fraction(1, 4), Fraction(7, 4), Fraction(1, 3), Fraction(5, 7), Fraction(r.randrange(1, 500), r.randrange(250, 1500)) % 2])


def diagram(case, names=False, symbolic=False, vdata=True, grounds=True, n=None, parallel=True, backend=None, rich=True):
    r = case.rng
    back = backend or r.choice(['simple', 'multi', 'multiauto'])
    g = Graph('simple' if back == 'simple' else 'multigraph')
    if back != 'simple':
        g.set_auto_simplify(back == 'multiauto')
    case.see('multigraph' if back == 'multi' else back)
    vs = []
    pos = set()
    big = n is None and r.random() < .03
    if big:
        case.see("op:big")
    n = n if n is not None else r.randrange(8, 25) if big else r.choice([0, 1, 3, 5, 8])

    def place():
        while True:
            p = (r.choice([0, 1, 2, 3, .5, 1.25, 4.75, -2]), r.choice([0, 1, 2, 3, 4, 5, 2.5, 0.25, -1.5]))
            if big:
                p = (p[0] + r.randrange(12), p[1] + r.randrange(12))
            if p not in pos:
                pos.add(p)
                return p
    if symbolic:
        g.variable_types.update({'a': True, 'b': False, 'theta': False, 'jx': True})
        if r.random() < .5:
            g.variable_types.update({'k': False})
    for _ in range(n):
        ty = r.choice([Z, Z, Z, X, X, H, ZB, 'W'])
        if ty == 'W':
            a = g.add_vertex(WI, *place())
            v = g.add_vertex(WO, *place())
            g.add_edge((a, v), WIO)
            vs += [a, v]
            case.see("op:wnode")
            continue
        v = g.add_vertex(ty, *place(), phase=phase(r) if r.random() < .7 and ty != ZB else None)
        if ty == ZB:
            case.see("op:zbox")
            if r.random() < .8:
                set_z_box_label(g, v, r.choice([0, 1, -1, 2, Fraction(1, 2), Fraction(-3, 4), Fraction(3, 1000), .25, -1.5, 1j, 1 + 2j, complex(-1), complex(.5, -.25), Fraction(-1), Fraction(0), Fraction(2)]))
        if ty == H:
            case.see("op:hbox")
        if symbolic and ty in (Z, X) and r.random() < .6:
            g.set_phase(v, sym(r, g))
        if grounds and ty in (Z, X) and r.random() < .1:
            g.set_ground(v)
        vs.append(v)
    for i in range(r.randrange(8, 16) if big else r.randrange(0, 4)):
        v = g.add_vertex(B, *place())
        vs.append(v)
    pairs = [(a, b) for i, a in enumerate(vs) for b in vs[:i]]
    r.shuffle(pairs)
    for a, b in pairs[:r.randrange(0, 2 * len(vs) + 1)]:
        if not g.connected(a, b) and not (B in (g.type(a), g.type(b)) and (any(g.neighbors(a)) if g.type(a) == B else False or any(g.neighbors(b)) if g.type(b) == B else False)):
            g.add_edge((a, b) if r.random() < .5 else (b, a), r.choice([S, HAD]))
            if parallel and back == 'multi' and r.random() < .3:
                for _ in range(r.randrange(1, 3)):
                    g.add_edge((a, b), r.choice([S, HAD]))
    if parallel and back == 'multi' and vs and r.random() < .2:
        v = r.choice(vs)
        if g.type(v) in (Z, X):
            g.add_edge((v, v), r.choice([S, HAD]))
    bs = [v for v in vs if g.type(v) == B]
    r.shuffle(bs)
    k = r.randrange(len(bs) + 1)
    if r.random() < .9:
        g.set_inputs(tuple(bs[:k]))
        g.set_outputs(tuple(bs[k:]))
    if r.random() < .3 and len(vs) > 2:
        g.remove_vertex(r.choice(vs))
    if rich:
        g.scalar = gen.scalar(r)
        if r.random() < .3:
            g.scalar.add_spider_pair(Fraction(1, 3), Fraction(1, 5))
            case.see("op:json_complex")
    if vdata:
        for v in g.vertices():
            if r.random() < .3:
                g.set_vdata(v, r.choice(['x', 'note', 'label2']), r.choice([1, 2.5, 'hello', 'j', '5', 'nan', True, None, [1, 2], {'k': 'v'}, 'pi', 1 + 2j]))
    if names:
        for v in g.vertices():
            if r.random() < .5:
                g.set_vdata(v, 'name', r.choice(['v0', 'v1', 'v2', 'b0', 'b1', 'v7', 'foo', '5', '1j', 'inf', 'e0']))
    return g


def sym(r, g):
    names = sorted(g.variable_types)
    p = 0
    for x in r.sample(names, r.choice([1, 1, 2])):
        p = p + new_var(x, g.variable_types) * r.choice([1, 1, Fraction(1, 2), Fraction(3, 4), Fraction(1, 3)])
    if r.random() < .4:
        p = p + r.choice([1, Fraction(1, 2), Fraction(1, 4)])
    return p


def tags(g):
    for i, v in enumerate(list(g.vertices())):
        g.set_vdata(v, 'tag', i + 100)


def rename(case, what, m, h):
    t = {h.vdata(v, 'tag', None): v for v in h.vertices()}
    case.check(h.num_vertices() == len(m.v) == len(t) and all(d['data']['tag'] in t for d in m.v.values()), what + ":vertices", lambda: "%s: %d vertices become %d" % (what, len(m.v), h.num_vertices()))
    return {v: t[d['data']['tag']] for v, d in m.v.items()}


def note(case, what, g):
    case.see("op:" + what)
    if g.num_edges() > 2 and sum(1 for v in g.vertices() if g.type(v) != B) > 2:
        case.note(what, gen.show(g))
    case.sample(what + " " + gen.show(g))


def resolvable(g):
    n = Counter()
    for e in g.edges():
        n[pair(*g.edge_st(e))] += 1
    return any(k > 1 or a == b for (a, b), k in n.items())


def k_json(case):
    r = case.rng
    x = r.random()
    symbolic = x < .2
    g = diagram(case, names=r.random() < .4, symbolic=symbolic)
    tags(g)
    if r.random() < .04:
        g.scalar.set_unknown()
        case.see("op:json_unknown")
    s = mon.snapshot(g)
    keep_scalar = r.random() < .85
    js = g.to_json() if keep_scalar else g.to_json(include_scalar=False)
    case.check(mon.snapshot(g) == s, "json:mutated", "to_json changed the diagram")
    case.see("op:unchanged")
    back = g.backend if r.random() < .7 else r.choice(['simple', 'multigraph'])
    try:
        h = type(Graph(back)).from_json(js)
    except ValueError as e:
        if 'unreducible' in str(e) and resolvable(g):
            raise Skip("unreducible parallel edge")
        raise
    case.check(h.backend == back, "json:backend", "another backend")
    if back != g.backend:
        case.see("op:json_other_backend")
    m = of(g)
    n = m.copy(rename(case, 'json', m, h))
    if not keep_scalar:
        case.see("op:json_noscalar")
        n.scalar = 1
    else:
        case.check(h.scalar.is_unknown == g.scalar.is_unknown and h.scalar.is_zero == g.scalar.is_zero, "json:scalar", lambda: "the scalar %s becomes %s" % (g.scalar, h.scalar))
    if resolvable(g):
        # reading a multigraph resolves parallel edges: the map stays
        case.see("op:json_parallel")
        if g.grounds() or symbolic:
            raise Skip("not compared")
        try:
            a = ref.matrix(g, scalar=keep_scalar)
        except ref.BadDiagram:
            raise Skip("not a well-formed diagram")
        b = ref.matrix(h)
        case.check(ref.close(a, b, atol=1e-9), "json:parallel", lambda: "after JSON the diagram is another: %s; %s" % (ref.describe(a, b), gen.show(g)))
        return
    named = any(d['data'].get('name') for d in m.v.values())
    if named:
        case.see("op:json_names")
    for v, d in n.v.items():
        d['data'].pop('name', None)
        nm = h.vdata(v, 'name', None)
        if nm is not None:
            d['data']['name'] = nm      # loading records the name
        if d['ty'] == ZB:
            l = complex(d['data'].get('label', 1))
            d['data']['label'] = h.vdata(v, 'label', 1)
            case.check(abs(complex(d['data']['label']) - l) < 1e-12, "json:label", lambda: "the Z-box label %s becomes %r" % (l, d['data']['label']))
    check(case, 'json', h, n, g)
    case.check(h.variable_types == g.variable_types, "json:variables", lambda: "variable types %s become %s" % (g.variable_types, h.variable_types))
    if symbolic:
        case.see("op:json_symbolic")
    if any(set(d['data']) - {'tag', 'name', 'label'} for d in m.v.values()):
        case.see("op:json_vdata")
    if g.grounds():
        case.see("op:json_ground")
    if any(isinstance(d['phase'], Fraction) and d['phase'].denominator > 256 for d in m.v.values()):
        case.see("op:json_big")
    note(case, 'json', g)
    if r.random() < .3:
        k = type(h).from_json(h.to_json())
        n2 = of(h)
        check(case, 'json_twice', k, n2.copy(rename(case, 'json', n2, k)), h)
        note(case, 'json_twice', g)


def check(case, what, h, n, g):
    d = differ(h, n)
    case.check(d is None, what, lambda: "%s: %s; the diagram was %s with data %s, scalar %s" % (what, d, gen.show(g), [{k: g.vdata(v, k) for k in g.vdata_keys(v)} for v in g.vertices()], g.scalar))


def k_tikz(case):
    r = case.rng
    g = diagram(case, vdata=False, grounds=False, rich=False)
    s = mon.snapshot(g)
    if r.random() < .25:
        sequence(case)
    text = g.to_tikz() if r.random() < .5 else to_tikz(g, draw_scalar=False)
    case.check(mon.snapshot(g) == s, "tikz:mutated", "to_tikz changed the diagram")
    back = g.backend if r.random() < .7 else r.choice(['simple', 'multigraph'])
    try:
        h = type(Graph(back)).from_tikz(text, warn_overlap=False, fuse_overlap=False)
    except ValueError as e:
        if 'unreducible' in str(e) and resolvable(g):
            raise Skip("unreducible parallel edge")
        raise
    case.check(h.backend == back, "tikz:backend", "another backend")
    if back != g.backend:
        case.see("op:tikz_other_backend")
    compare_drawing(case, 'tikz', [(g, 0, 0)], h)
    note(case, 'tikz', g)
    if r.random() < .1:
        lines = text.strip().split("\n")
        k = r.choice([0, 1, len(lines) - 1, 2])
        if k == 2 and (not g.num_vertices() or 'node ' not in lines[2]):
            k = 0
        lines[k] = r.choice(['hello', '\\nod [style=x] (0) at (0,0) {};']) if k != 2 else lines[2].replace('style=', 'style=unknown ')
        try:
            tikz_to_graph("\n".join(lines), warn_overlap=False)
        except (ValueError, KeyError):
            case.see("op:tikz_refused")
        else:
            case.fail("tikz:refuse", "a picture with the line %r was accepted" % lines[k])


def compare_drawing(case, what, parts, h):
    """h is the union of the given diagrams at their offsets; a Hadamard on a boundary is drawn as a box on the wire."""
    want = Model()
    extra = []
    k = 0
    par = False
    for g, dx, dy in parts:
        m = of(g)
        ren = {v: k + i for i, v in enumerate(m.v)}
        k += len(m.v)
        m = m.copy(ren)
        for v, d in m.v.items():
            d.update(q=d['q'] + dy, row=d['row'] + dx)
            want.v[v] = d
        for (a, b, t), n in m.e.items():
            if t == HAD and B in (m.v[a]['ty'], m.v[b]['ty']):
                for _ in range(n):
                    extra.append((a, b))
            else:
                want.e[(a, b, t)] += n
        par |= resolvable(g)
    for a, b in extra:
        case.see("op:tikz_hboundary")
        want.v[k] = dict(ty=H, phase=1, q=(want.v[a]['q'] + want.v[b]['q']) / 2, row=(want.v[a]['row'] + want.v[b]['row']) / 2, ground=False, data={})
        want.e[(a, k, S)] += 1
        want.e[(b, k, S)] += 1
        k += 1
    # vertices are recognised by type and position; those drawn on the same spot by their phases and edges
    case.check(h.num_vertices() == len(want.v), what + ":vertices", lambda: "%d vertices are drawn, expected %d: %s" % (h.num_vertices(), len(want.v), [gen.show(g) for g, _, _ in parts]))
    key = lambda d: (int(d['ty']), round(d['q'] * 100), round(d['row'] * 100))
    hv = {}
    got = of(h)
    for v, d in got.v.items():
        hv.setdefault(key(d), []).append(v)
    wv = {}
    for v, d in want.v.items():
        wv.setdefault(key(d), []).append(v)
    # a midpoint can fall between two hundredths
    if {k: len(v) for k, v in hv.items()} != {k: len(v) for k, v in wv.items()}:
        near = lambda a, b: a[0] == b[0] and abs(a[1] - b[1]) <= 1 and abs(a[2] - b[2]) <= 1
        for k2 in list(hv):
            if k2 not in wv:
                c = [q for q in wv if q not in hv and near(q, k2)]
                if len(c) == 1:
                    hv[c[0]] = hv.pop(k2)
    case.check({k: len(v) for k, v in hv.items()} == {k: len(v) for k, v in wv.items()}, what + ":positions", lambda: "drawn are (type, 100*qubit, 100*row) %s, expected %s" % (sorted(hv), sorted(wv)))
    if any(len(v) > 1 for v in hv.values()):
        raise Skip("vertices on the same spot")
    ren = {hv[k2][0]: wv[k2][0] for k2 in hv}
    got = got.copy(ren)
    if par:
        # parallel edges are resolved while reading
        case.see("op:tikz_parallel")
        if len(parts) > 1:
            raise Skip("several")
        g = parts[0][0]
        h2 = h.clone()
        order = list(of(g).v)
        back = {w: v for v, w in ren.items()}
        h2.set_inputs(tuple(back[order.index(v)] for v in g.inputs()))
        h2.set_outputs(tuple(back[order.index(v)] for v in g.outputs()))
        try:
            a = ref.matrix(g, scalar=False)
        except ref.BadDiagram:
            raise Skip("not a well-formed diagram")
        b = ref.matrix(h2)
        ok, _ = ref.close_up_to_scalar(a, b)
        case.check(ok, what + ":parallel", lambda: "drawn and read again the diagram is another: %s; %s" % (ref.describe(a, b), gen.show(g)))
        return
    case.check(got.e == want.e, what + ":edges", lambda: "edges drawn are %s, expected %s, of %s" % (show(got.e), show(want.e), [gen.show(g) for g, _, _ in parts]))
    for v, d in want.v.items():
        e = got.v[v]
        if d['ty'] == ZB:
            l, k2 = complex(d['data'].get('label', 1)), complex(e['data'].get('label', 1))
            case.check(abs(l - k2) < 1e-9, what + ":label", lambda: "the Z-box label %s becomes %s" % (d['data'].get('label', 1), e['data'].get('label', 1)))
        else:
            case.check(e['phase'] == d['phase'], what + ":phase", lambda: "the phase %s of a vertex of type %s becomes %s" % (d['phase'], d['ty'], e['phase']))


def sequence(case):
    r = case.rng
    gs = [diagram(case, vdata=False, grounds=False, rich=False, parallel=False, backend='simple', n=r.choice([0, 1, 3])) for _ in range(r.randrange(1, 4))]
    gs = [g for g in gs if g.num_vertices()]
    width = r.choice([5, 10, 100])
    text = to_tikz_sequence(gs, maxwidth=width)
    ids = re.findall(r"\\node \[style=[^\]]*\] \((\d+)\)", text)
    case.check(len(set(ids)) == len(ids), "tikz_sequence:ids", lambda: "vertex numbers %s are used twice for %s" % ([i for i, n in Counter(ids).items() if n > 1], [gen.show(g) for g in gs]))
    h = tikz_to_graph(text, warn_overlap=False, fuse_overlap=False)
    case.check(h.num_vertices() == len(ids), "tikz_sequence:vertices", "vertices")
    # where each diagram was put is up to the layout, so look up the first vertex of each
    parts = []
    hv = of(h)
    order = sorted(hv.v)
    k = 0
    for g in gs:
        m = of(g)
        n_extra = sum(n for (a, b, t), n in m.e.items() if t == HAD and B in (m.v[a]['ty'], m.v[b]['ty']))
        v0 = next(iter(m.v))
        d = hv.v[order[k]]
        parts.append((g, d['row'] - m.v[v0]['row'], d['q'] - m.v[v0]['q']))
        k += len(m.v) + n_extra
    compare_drawing(case, 'tikz_sequence', parts, h)
    case.see("op:tikz_sequence")


def mutate(case, g, symbolic):
    """Some edits on a copy."""
    r = case.rng
    h = g.clone()
    for _ in range(r.choice([0, 1, 3, 8])):
        vs = list(h.vertices())
        x = r.random()
        if x < .2 or not vs:
            v = h.add_vertex(r.choice([Z, X, H, B]), r.choice([0, 1, 2.5]), r.choice([0, 1, 3.25]), phase=phase(r) if r.random() < .5 else None)
            if r.random() < .3:
                h.set_vdata(v, 'x', r.choice([5, 'y', [1]]))
        elif x < .3:
            h.remove_vertex(r.choice(vs))
        elif x < .5 and len(vs) > 1:
            a, b = r.sample(vs, 2)
            if not h.connected(a, b) or (h.backend == 'multigraph' and not h._auto_simplify and not any(h.edge_type(e) == WIO for e in h.edges(a, b))):
                h.add_edge((a, b), r.choice([S, HAD]))
        elif x < .6 and h.num_edges():
            h.remove_edge(r.choice(list(h.edges())))
        elif x < .7 and h.num_edges():
            e = r.choice(list(h.edges()))
            a, b = h.edge_st(e)
            if h.edge_type(e) != WIO and len(list(h.edges(a, b))) == 1 and a != b:
                h.set_edge_type(e, HAD if h.edge_type(e) == S else S)
        elif x < .8:
            v = r.choice(vs)
            h.set_phase(v, sym(r, h) if symbolic and r.random() < .5 else phase(r))
        elif x < .88:
            v = r.choice(vs)
            if h.type(v) in (Z, X, H, B) and not any(a == b for a, b in map(h.edge_st, h.incident_edges(v))):
                h.set_type(v, r.choice([Z, X, H, B]))
        elif x < .94:
            h.set_position(r.choice(vs), r.choice([0, 7, .5]), r.choice([0, 9, 1.75]))
        else:
            v = r.choice(vs)
            h.set_vdata(v, r.choice(['x', 'note']), r.choice([1, 'z', [3, {'q': 1}]]))
    return h


def k_diff(case):
    r = case.rng
    symbolic = r.random() < .15
    g1 = diagram(case, symbolic=symbolic, grounds=False, rich=False)
    g2 = mutate(case, g1, symbolic) if r.random() < .85 else diagram(case, backend='simple' if g1.backend == 'simple' else 'multi' if not g1._auto_simplify else 'multiauto', symbolic=symbolic, grounds=False, rich=False)
    for g in (g1, g2):
        g.set_inputs(())
        g.set_outputs(())
    m1, m2 = of(g1), of(g2)
    s1, s2 = mon.snapshot(g1), mon.snapshot(g2)
    d = GraphDiff(g1, g2)
    what = 'diff'
    if r.random() < .5:
        what = 'diff_json'
        js = d.to_json()
        d = GraphDiff.from_json(js)
        case.see('op:diff_json')
    h = d.apply_diff(g1)
    m2.scalar = h.scalar.to_number()
    for v, dd in m2.v.items():
        if dd['ty'] == ZB and 'label' in dd['data'] and what == 'diff_json':
            l = dd['data']['label']
            got = h.vdata(v, 'label', 1)
            case.check(abs(complex(l) - complex(got)) < 1e-12, "diff_json:label", lambda: "label %r becomes %r" % (l, got))
            dd['data']['label'] = got
    x = differ(h, m2)
    case.check(x is None, what, lambda: "applying the difference of %s and %s to the first: %s" % (gen.show(g1), gen.show(g2), x))
    if symbolic:
        case.check(all(h.variable_types.get(k) == v for k, v in g2.variable_types.items()), what + ":variables", lambda: "variable types %s instead of %s" % (h.variable_types, g2.variable_types))
        case.see("op:diff_symbolic")
    # neither diagram is changed or shared
    for v in h.vertices():
        for k in list(h.vdata_keys(v)):
            if isinstance(h.vdata(v, k), list):
                h.vdata(v, k).append('changed')
        h.set_vdata(v, 'x', 'changed')
        h.set_phase(v, Fraction(1, 7))
    case.check(mon.snapshot(g1) == s1 and mon.snapshot(g2) == s2, what + ":mutated", "the diagrams changed")
    h = d.apply_diff(g1)
    case.check(differ(h, m2) is None, what + ":twice", lambda: "applying a difference again gives another result: %s" % differ(h, m2))
    a, b = set(m1.v), set(m2.v)
    both = a & b
    if a != b:
        case.see("op:diff_vertices")
    if m1.e != m2.e:
        case.see("op:diff_edges")
    if any(m1.v[v]['ty'] != m2.v[v]['ty'] for v in both):
        case.see("op:diff_types")
    if any(m1.v[v]['phase'] != m2.v[v]['phase'] for v in both):
        case.see("op:diff_phases")
    if any((m1.v[v]['q'], m1.v[v]['row']) != (m2.v[v]['q'], m2.v[v]['row']) for v in both):
        case.see("op:diff_positions")
    if any(m1.v[v]['data'] != m2.v[v]['data'] for v in both):
        case.see("op:diff_vdata")
    if any(m1.between(*p) and m2.between(*p) and m1.between(*p) != m2.between(*p) for p in {k[:2] for k in m1.e}):
        case.see("op:diff_etypes")
    if m1.v == m2.v and m1.e == m2.e:
        case.see("op:diff_empty")
        case.check(not any([d.removed_verts, d.new_verts, d.removed_edges, d.new_edges, d.changed_vertex_types, d.changed_edge_types, d.changed_phases, d.changed_pos, d.changed_vdata]), "diff:empty", lambda: "equal diagrams differ by %s" % d.to_json())
    note(case, what, g2)


def k_other(case):
    """GraphML, pickling, and scalars on their own."""
    r = case.rng
    g = diagram(case, symbolic=r.random() < .1)
    s = mon.snapshot(g)
    x = r.random()
    if x < .3:
        root = ET.fromstring(g.to_graphml().encode())
        ns = '{http://graphml.graphdrawing.org/xmlns}'
        gr = root.find(ns + 'graph')
        nodes = {}
        for nd in gr.findall(ns + 'node'):
            nodes[int(nd.get('id'))] = {k.get('key'): k.text for k in nd.findall(ns + 'data')}
        case.check(set(nodes) == set(g.vertices()), "graphml:nodes", lambda: "nodes %s of %s" % (sorted(nodes), gen.show(g)))
        for v, d in nodes.items():
            ok = int(d['type']) == int(g.type(v)) and d['phase'] == str(g.phase(v)) and float(d['x']) == g.row(v) * 100 and float(d['y']) == g.qubit(v) * 100
            case.check(ok, "graphml:data", lambda: "vertex %d of type %s phase %s at %s has %s" % (v, g.type(v), g.phase(v), (g.row(v), g.qubit(v)), d))
        es = Counter(pair(int(e.get('source')), int(e.get('target'))) + (EdgeType(int(e.find(ns + 'data').text)),) for e in gr.findall(ns + 'edge'))
        case.check(es == of(g).e, "graphml:edges", lambda: "edges %s, expected %s" % (show(es), show(of(g).e)))
        note(case, 'graphml', g)
    elif x < .65:
        pick = r.random() < .5
        h = pickle.loads(pickle.dumps(g)) if pick else copy.deepcopy(g)
        what = 'pickle' if pick else 'deepcopy'
        d = differ(h, of(g))
        case.check(d is None, what, lambda: "%s: %s" % (what, d))
        case.check(h.variable_types == g.variable_types, what, "variable types")
        for v in h.vertices():
            h.set_phase(v, Fraction(1, 7))
            h.set_vdata(v, 'x', 'changed')
        case.check(mon.snapshot(g) == s, what + ":alias", "the copy shares data with the original")
        note(case, what, g)
    else:
        a = g.scalar
        b = type(a).from_json(a.to_json())
        x, y = a.to_number(), b.to_number()
        case.check(abs(x - y) <= 1e-9 * max(1, abs(x)) and b.is_zero == a.is_zero and b.is_unknown == a.is_unknown, "scalar", lambda: "the scalar %s becomes %s" % (a, b))
        case.check(b.power2 == a.power2 and b.phase == a.phase and b.phasenodes == a.phasenodes and isinstance(b.is_unknown, bool), "scalar:fields", lambda: "the scalar %s becomes %s" % (vars(a), vars(b)))
        case.see("op:scalar")
    case.check(mon.snapshot(g) == s, "other:mutated", "the diagram was changed")


# --- files written by other programs

STYLES = {B: ['none', 'empty', 'boundary'], Z: ['z dot', 'Z spider', 'Z', 'z phase dot', 'white spider', 'white phase spider', 'white dot', 'white phase dot', 'green dot', 'green node', 'green phase node'],
          X: ['x dot', 'X spider', 'X', 'X phase dot', 'grey spider', 'grey phase spider', 'grey dot', 'grey phase dot', 'gray spider', 'gray phase spider', 'gray dot', 'gray phase dot', 'red dot', 'red node', 'red phase node'],
          H: ['hadamard', 'H', 'small hadamard', 'Hadamard'], WI: ['w input'], WO: ['W output', 'w', 'W triangle'],
          ZB: ['z box', 'zbox', 'zbox phase', 'green box', 'green box phase', 'green phase box', 'white box', 'white box phase', 'white phase box']}
ESTYLES = {S: [None, 'empty', 'simple', 'none'], HAD: ['hadamard edge', 'Hadamard edge'], WIO: ['w edge', 'W io edge']}


def drawn_phase(r, ty):
    """A label and what it means."""
    if ty == ZB:
        return r.choice([('$2$', 2), ('', 1), ('$0$', 0), ('$1+2j$', 1 + 2j), ('$-0.5$', -.5), ('$3$', 3), (r'$\frac{1}{2}$', Fraction(1, 2)), ('$3/4$', Fraction(3, 4)), ('$-1$', -1)])
    if r.random() < .3:
        return '', 1 if ty == H else 0
    a, b = r.choice([1, 1, -1, 3, 5, -3, 2, 7]), r.choice([1, 2, 3, 4, 8, 300])
    n = {1: '', -1: '-'}.get(a, str(a))
    forms = [r'%s\pi' % n] if b == 1 else [r'\frac{%s\pi}{%d}' % (n, b), r'%s\pi/%d' % (n, b), r'%s\frac{\pi}{%d}' % (n, b), r'\frac{%s \pi}{%d}' % (n, b)]
    if b == 1:
        if a == 1:
            forms += [r'\neg', r'\pi', r'1\pi']
        if a == 2:
            forms += ['0']
        if a == -1:
            forms += [r'-1\pi', r'-\pi']
    else:
        if a == 1:
            forms += [r'\frac{1}{%d}\pi' % b, r'1\pi/%d' % b]
        if a > 0:
            forms += [r'%s\pi / %d' % (n, b)]
        if a > 1:
            forms += [r'\frac{%d}{%d}\pi' % (a, b), r'\frac{%d}{%d} \pi' % (a, b)]
        if a == 1 and b < 10:
            forms += [r'\frac\pi%d' % b, r'\frac\pi %d' % b]
    t = r.choice(forms)
    t = r.choice(['$%s$', '$ %s $', '$~%s$', r'$\ %s$'] if t != '0' else ['$%s$', '%s', '$~%s$']) % t
    return t, Fraction(a, b) % 2


def picture(r, n=None):
    """A drawing made with TikZiT and the diagram it stands for."""
    m = Model()
    m.scalar = 1
    spots = [(x, y) for x in (0, 1, 2.5, -1.25, 3, 4.75) for y in (0, -1, 2, .5, -2.25)]
    r.shuffle(spots)
    ids = r.sample(range(60), 30)
    texts = {}
    for i in range(r.randrange(0, 8) if n is None else n):
        ty = r.choice([B, Z, Z, X, X, H, ZB])
        t, p = drawn_phase(r, ty) if ty != B else ('', 0)
        v = ids.pop()
        (x, y) = spots.pop()
        m.v[v] = dict(ty=ty, phase=p, q=-y, row=x, ground=False, data={})
        if ty == ZB:
            m.v[v].update(phase=0, data={'label': p})
        texts[v] = t
        if r.random() < .1 and len(ids) > 3:
            a, b = ids.pop(), ids.pop()
            for v, ty in ((a, WI), (b, WO)):
                (x, y) = spots.pop()
                m.v[v] = dict(ty=ty, phase=0, q=-y, row=x, ground=False, data={})
                texts[v] = ''
            m.e[pair(a, b) + (WIO,)] += 1
    vs = list(m.v)
    for i, a in enumerate(vs):
        for b in vs[:i]:
            if r.random() < .3 and not any(k[:2] == pair(a, b) for k in m.e):
                m.e[pair(a, b) + (r.choice([S, S, HAD]),)] += 1
    return m, texts


def number(r, x):
    return r.choice(['%.2f', '%g', '%s', '%.3f'] if x != int(x) else ['%.2f', '%g', '%d', '%.1f']) % x


def tikz_text(r, m, texts, extra=lambda v: ''):
    nodes, edges = [], []
    for v, d in m.v.items():
        nodes.append("\\node [style=%s] (%d) at (%s, %s) {%s};" % (d.get('style') or r.choice(STYLES[d['ty']]), v, number(r, d['row']), number(r, -d['q']), texts[v]))
    for (a, b, t), n in m.e.items():
        for _ in range(n):
            if r.random() < .5:
                a, b = b, a
            st = r.choice(ESTYLES[t])
            opts = ['style=' + st] if st else []
            if r.random() < .3:
                o = r.choice(['bend left', 'bend right=30', 'in=135, out=-45', 'looseness=1.25', 'bend left=15, looseness=0.75'])
                opts.insert(r.randrange(2), o)
            f = lambda v: '(%d.center)' % v if m.v[v]['ty'] == B and r.random() < .5 else '(%d)' % v
            edges.append("\\draw %s%s to %s;" % ('[%s] ' % ', '.join(opts) if opts else r.choice(['', '[] ']) if r.random() < .3 else '', f(a), f(b)))
    r.shuffle(edges)
    tab = r.choice(['\t', '    ', ''])
    lines = [r.choice(['\\begin{tikzpicture}', '\\begin{tikzpicture}', '\\begin{tikzpicture}[tikzfig]']), tab + '\\begin{pgfonlayer}{nodelayer}'] + [2 * tab + x for x in nodes] + [tab + '\\end{pgfonlayer}', tab + '\\begin{pgfonlayer}{edgelayer}'] + [2 * tab + x for x in edges] + [tab + '\\end{pgfonlayer}', '\\end{tikzpicture}']
    return r.choice(['', '\n', '  \n']) + '\n'.join(lines) + r.choice(['', '\n', '\n\n'])


def match_drawing(case, what, m, h, text):
    """h is the drawn diagram m up to the numbers of the vertices (all at different positions)."""
    case.check(h.num_vertices() == len(m.v), what, lambda: "%d vertices for %d: %s" % (h.num_vertices(), len(m.v), text))
    at = {(float(h.row(v)), float(h.qubit(v))): v for v in h.vertices()}
    ren = {}
    for v, d in m.v.items():
        k = (round(float(d['row']), 9), round(float(d['q']), 9))
        case.check(k in at, what, lambda: "nothing at %s: %s" % (k, text))
        ren[v] = at[k]
    n = m.copy(ren)
    g = of(h)
    for v, d in n.v.items():
        c = g.v[v]
        case.check(c['ty'] == d['ty'] and c['phase'] == d['phase'], what, lambda: "vertex at %s has type %s and phase %s, drawn are %s %s: %s" % ((d['row'], -d['q']), c['ty'], c['phase'], d['ty'], d['phase'], text))
        if d['ty'] == ZB:
            case.check(abs(complex(h.vdata(v, 'label', 1)) - complex(d['data'].get('label', 1))) < 1e-12, what, lambda: "label %s: %s" % (h.vdata(v, 'label', 1), text))
    case.check(+g.e == +n.e, what, lambda: "edges %s, drawn are %s: %s" % (show(+g.e), show(+n.e), text))
    case.check(abs(h.scalar.to_number() - 1) < 1e-9, what, lambda: "scalar %s: %s" % (h.scalar, text))


def k_foreign(case):
    r = case.rng
    m, texts = picture(r)
    x = r.random()
    back = r.choice(['simple', 'multigraph'])
    if x < .5:
        text = tikz_text(r, m, texts)
        h = tikz_to_graph(text, backend=back) if r.random() < .7 else type(Graph(back)).from_tikz(text)
        case.check(h.backend == back, "foreign", "another backend")
        match_drawing(case, "foreign", m, h, text)
        case.see("op:foreign")
        if any(d['phase'] for d in m.v.values()):
            case.note("foreign", text)
        case.sample(text)
    elif x < .65:
        # something that is no ZX-diagram: refused, or taken for a boundary, no phase, a plain edge
        m, texts = picture(r, r.randrange(1, 6))
        n = m.copy()
        what = r.choice(['style', 'label', 'edge'])
        v = r.choice(list(m.v))
        if what == 'style':
            m.v[v]['style'] = r.choice(['blob', 'z  dot', 'yellow dot', 'dot'])
            n.v[v].update(ty=B, data={}, phase=0)
            texts[v] = ''
            n.e = Counter({k: c for k, c in n.e.items()})
        elif what == 'label':
            if m.v[v]['ty'] not in (Z, X, H):
                raise Skip()
            texts[v] = r.choice(['$f$', 'hello', '$x+y$', r'$\alpha$'])
            n.v[v].update(phase=1 if m.v[v]['ty'] == H else 0)
        text = tikz_text(r, m, texts)
        if what == 'edge':
            if 'style=hadamard edge' not in text.lower():
                raise Skip()
            text = re.sub('style=[hH]adamard edge', 'style=wiggly', text)
            n.e = Counter({(a, b, S if t == HAD else t): c for (a, b, t), c in n.e.items()})
        try:
            tikz_to_graph(text, backend=back)
        except ValueError:
            case.see("op:foreign_refused")
        else:
            case.fail("foreign:refuse", "accepted: %s" % text)
        match_drawing(case, "foreign:ignore", n, tikz_to_graph(text, backend=back, ignore_nonzx=True), text)
        case.see("op:foreign_ignored")
    elif x < .8:
        # two vertices on one spot
        m, texts = picture(r, r.randrange(2, 7))
        zs = [v for v in m.v if m.v[v]['ty'] in (Z, X)]
        if len(zs) < 2:
            raise Skip()
        a, b = sorted(r.sample(zs, 2), key=list(m.v).index)
        same = dict(row=m.v[a]['row'], q=m.v[a]['q'], ty=m.v[a]['ty'])
        m.v[b].update(same)
        m.e = Counter({k: n for k, n in m.e.items() if k[:2] != pair(a, b)})
        style = r.choice(STYLES[same['ty']])
        text = tikz_text(random_fixed(r), m, texts)
        try:
            tikz_to_graph(text, backend=back)
        except Warning:
            case.see("op:overlap_warned")
        else:
            case.fail("overlap:warning", "no warning: %s" % text)
        h = tikz_to_graph(text, warn_overlap=False, fuse_overlap=False, backend=back)
        case.check(h.num_vertices() == len(m.v) and h.num_edges() == sum(m.e.values()), "overlap:kept", lambda: "%d vertices and %d edges: %s" % (h.num_vertices(), h.num_edges(), text))
        n = m.copy()
        # the second is drawn over the first: its edges go there
        n.drop(b)
        for (c, d, t), k in m.e.items():
            if b in (c, d):
                o = c if d == b else d
                n.e[pair(a, o) + (t,)] += k
        if any(len([k for k in +n.e if k[:2] == q[:2]]) > 1 or n.e[q] > 1 for q in +n.e):
            return
        h = tikz_to_graph(text, warn_overlap=False, fuse_overlap=True, backend=back)
        if texts[b]:
            n.v[a]['phase'] = m.v[b]['phase']
        match_drawing(case, "overlap:fused", n, h, text)
        case.see("op:overlap_fused")
    else:
        quantomatic(case)


def random_fixed(r):
    """Like r, but numbers are written in one way (positions are compared as they are written)."""
    class R:
        def __getattr__(self, a):
            return getattr(r, a)

        def choice(self, l):
            return '%.2f' if '%.2f' in l else r.choice(l)
    return R()


def quantomatic(case):
    """A .qgraph file of Quantomatic (or of an old PyZX), read back by Graph.from_json."""
    r = case.rng
    wires, nodes, edges = {}, {}, {}
    m = Model()
    m.scalar = 1
    names = {}
    spots = [(x, y) for x in (0, 1, 2.5, -1.25, 3, 4.75) for y in (0, -1, 2, .5, -2.25)]
    r.shuffle(spots)
    pool = ["v%d" % i for i in range(20)]
    r.shuffle(pool)
    bools = r.random() < .5
    old = bools and r.random() < .4  # by the deprecated reader of pyzx.io, which knows fewer forms
    ins, outs = [], []
    for i in range(r.randrange(0, 5)):
        x, y = spots.pop()
        name = 'b%d' % i
        ann = {'boundary': True, 'coord': [x, y]}
        k = r.choice(['in', 'out', 'none'])
        if bools:
            ann.update(input=k == 'in', output=k == 'out')
        elif k != 'none':
            ann['input' if k == 'in' else 'output'] = len(ins if k == 'in' else outs)
        (ins if k == 'in' else outs if k == 'out' else []).append(name)
        wires[name] = {'annotation': ann}
        names[name] = dict(ty=B, phase=0, q=-y, row=x)
    for i in range(r.randrange(0, 6)):
        x, y = spots.pop()
        name = pool.pop()
        ty = r.choice([Z, Z, X, H])
        a = {'annotation': {'coord': [x, y]}}
        p = 0
        if ty != Z or r.random() < .7:
            d = a['data'] = {}
            if ty != Z or r.random() < .7:
                d['type'] = {Z: 'Z', X: 'X', H: 'hadamard'}[ty]
            if ty == H:
                d['is_edge'] = 'false'
            if r.random() < .7:
                s, p = r.choice([('\\pi', 1), ('\\pi/2', Fraction(1, 2)), ('-\\pi/2', Fraction(3, 2)), ('3\\pi/4', Fraction(3, 4)), ('-3\\pi/4', Fraction(5, 4)), ('', 0), ('0', 0), ('-\\pi', 1), ('pi/4', Fraction(1, 4)), ('2\\pi/3', Fraction(2, 3)), ('\\pi / 8', Fraction(1, 8)), ('1/4', Fraction(1, 4)), ('5\\pi', 1)])
                if old and (s.startswith('pi') or ' ' in s):
                    s, p = '-5\\pi/3', Fraction(1, 3)
                d['value'] = s
        nodes[name] = a
        names[name] = dict(ty=ty, phase=p, q=-y, row=x)
    ns = list(names)
    es = Counter()
    for i, a in enumerate(ns):
        for b in ns[:i]:
            if r.random() < .35:
                t = r.choice([S, S, HAD])
                es[tuple(sorted((a, b))) + (t,)] += 1
                k = 'e%d' % len(edges)
                ends = [a, b] if r.random() < .5 else [b, a]
                if t == S:
                    edges[k] = {'src': ends[0], 'tgt': ends[1]}
                    continue
                h = pool.pop() if pool else 'w%d' % len(edges)
                nodes[h] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'hadamard', 'is_edge': 'true'}}
                edges[k] = {'src': ends[0], 'tgt': h} if r.random() < .5 else {'src': h, 'tgt': ends[0]}
                edges['e%d' % len(edges)] = {'src': ends[1], 'tgt': h} if r.random() < .5 else {'src': h, 'tgt': ends[1]}
    j = {'wire_vertices': wires, 'node_vertices': nodes, 'undir_edges': edges}
    for k in list(j):
        if not j[k] and r.random() < .5:
            del j[k]
    chain = None
    if len(ns) > 1 and r.random() < .2:
        # two Hadamards on one wire: a spider between them
        chain = r.sample(ns, 2)
        if any(k[:2] == tuple(sorted(chain)) for k in es):
            chain = None
        else:
            nodes['h1'] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'hadamard', 'is_edge': 'true'}}
            nodes['h2'] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'hadamard', 'is_edge': 'true'}}
            edges.update(c1={'src': chain[0], 'tgt': 'h1'}, c2={'src': 'h1', 'tgt': 'h2'}, c3={'src': 'h2', 'tgt': chain[1]})
            j.update(node_vertices=nodes, undir_edges=edges)
            case.see("op:quantomatic_chain")
    if r.random() < .08:
        x = r.random()
        if x < .5:
            nodes['bad'] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'hadamard', 'is_edge': 'true'}}
            if ns:
                for i in range(r.choice([0, 1, 3])):
                    edges['bad%d' % i] = {'src': 'bad', 'tgt': r.choice(ns)}
        else:
            nodes['bad'] = {'annotation': {'coord': [0, 0]}, 'data': {'type': r.choice(['Y', 'spider', 'x'])}}
        j.update(node_vertices=nodes, undir_edges=edges)
        try:
            Graph.from_json(json.dumps(j))
        except TypeError:
            case.see("op:quantomatic_refused")
            return
        case.fail("quantomatic:refuse", "accepted: %s" % json.dumps(j))
    text = json.dumps(j)
    if old:
        import contextlib
        import io as sio
        from pyzx import io
        with contextlib.redirect_stdout(sio.StringIO()):
            g = io.json_to_graph(text, force_deprecated_behavior=True)
        case.see("op:quantomatic_old")
    else:
        g = type(Graph(r.choice(['simple', 'multigraph']))).from_json(text)
    at = {g.vdata(v, 'name'): v for v in g.vertices()}
    if chain:
        new = set(at) - set(names)
        case.check(len(new) == 1, "quantomatic:chain", lambda: "vertices %s: %s" % (sorted(at), text))
        new = new.pop()
        v = at.pop(new)
        nb = {g.vdata(w, 'name'): g.edge_type(g.edge(v, w)) for w in g.neighbors(v)}
        case.check(g.type(v) == Z and g.phase(v) == 0 and nb == {c: HAD for c in chain} and g.vertex_degree(v) == 2, "quantomatic:chain", lambda: "between the Hadamards is %s %s with edges %s: %s" % (g.type(v), g.phase(v), nb, text))
        g.remove_vertex(v)
    case.check(set(at) == set(names) and g.num_vertices() == len(names), "quantomatic:names", lambda: "vertices %s: %s" % (sorted(at), text))
    for name, d in names.items():
        v = at[name]
        case.check(g.type(v) == d['ty'] and g.phase(v) == d['phase'] and g.row(v) == d['row'] and g.qubit(v) == d['q'], "quantomatic:vertex", lambda: "%s has type %s phase %s at %s: %s" % (name, g.type(v), g.phase(v), (g.row(v), g.qubit(v)), text))
    back = {v: n for n, v in at.items()}
    got = Counter(tuple(sorted((back[g.edge_s(e)], back[g.edge_t(e)]))) + (g.edge_type(e),) for e in g.edges())
    case.check(got == es, "quantomatic:edges", lambda: "edges %s: %s" % (got, text))
    case.check([back[v] for v in g.inputs()] == ins and [back[v] for v in g.outputs()] == outs, "quantomatic:boundary", lambda: "inputs %s, outputs %s: %s" % ([back[v] for v in g.inputs()], [back[v] for v in g.outputs()], text))
    case.check(g.scalar.to_number() == 1, "quantomatic:scalar", "scalar")
    if edges and nodes:
        case.note("quantomatic", text)
    case.sample(text)
    case.see("op:quantomatic")
    if bools and (ins or outs):
        case.see("op:quantomatic_flags")



def edit(case):
    """quantomatic.edit_graph with a stand-in for Quantomatic that replaces the file it is given."""
    import contextlib
    import io as sio
    import os
    import shutil
    import sys
    import tempfile
    import pyzx as zx
    r = case.rng
    g = diagram(case, names=False, symbolic=False, vdata=False, grounds=False, parallel=False, rich=False)
    h = diagram(case, names=False, symbolic=False, vdata=False, grounds=False, parallel=False, rich=False)
    js = h.to_json()
    d = tempfile.mkdtemp(prefix="vt17")
    path, jar = os.environ.get("PATH", ""), zx.settings.quantomatic_location
    how = r.choice(['edit', 'edit', 'edit', 'leave', 'missing', 'fails'])
    try:
        with open(os.path.join(d, "new.json"), "w") as f:
            f.write(js)
        with open(os.path.join(d, "java"), "w") as f:
            f.write("#!%s\nimport json, sys\nd = %r\nhow = %r\na = sys.argv[1:]\njson.dump([a, open(a[2]).read(), open(a[3]).read()], open(d + '/seen', 'w'))\n"
                    "if how == 'edit': open(a[3], 'w').write(open(d + '/new.json').read())\nsys.exit(3 if how == 'fails' else 0)\n" % (sys.executable, d, how))
        os.chmod(os.path.join(d, "java"), 0o700)
        fake = os.path.join(d, "quanto.jar")
        if how != 'missing':
            open(fake, "w").close()
        os.environ["PATH"] = d + os.pathsep + path
        zx.settings.quantomatic_location = fake if how != 'missing' or r.random() < .5 else None
        s = mon.snapshot(g)
        try:
            with contextlib.redirect_stdout(sio.StringIO()):
                k = zx.quantomatic.edit_graph(g)
        except Exception as e:
            case.check(how in ('missing', 'fails'), "edit:refused", lambda: "%s: %s" % (how, e))
            case.see("op:quantomatic_edit_" + how)
            return
        case.check(how in ('edit', 'leave'), "edit:accepted", how)
        with open(os.path.join(d, "seen")) as f:
            a, project, given = json.load(f)
        case.check(a[:2] == ["-jar", fake] and len(a) == 4 and not os.path.exists(a[3]), "edit:arguments", lambda: "java was called with %s" % a)
        json.loads(project)
        case.check(given == g.to_json(), "edit:given", lambda: "the diagram %s was given as %s" % (gen.show(g), given))
        case.check(mon.snapshot(g) == s, "edit:mutated", "edit_graph changed the diagram")
        want = Graph.from_json(js if how == 'edit' else g.to_json())
        case.check(k.to_json() == want.to_json(), "edit:result", lambda: "saved as %s and loaded as %s" % (js, k.to_json()))
        case.see("op:quantomatic_edit")
        case.note("edit", js)
    finally:
        os.environ["PATH"] = path
        zx.settings.quantomatic_location = jar
        shutil.rmtree(d)


def k_legacy(case):
    """The deprecated functions of pyzx.io, in their old and in their new behaviour."""
    import contextlib
    import io as sio
    from pyzx import io
    r = case.rng
    if r.random() < .02:
        return edit(case)
    new = r.random() < .3
    g = diagram(case, names=r.random() < .3, symbolic=False, vdata=False, grounds=False, parallel=False, rich=False)
    old = lambda f, *a: f(*a) if new else f(*a, force_deprecated_behavior=True)
    if new or r.random() < .1:
        out = sio.StringIO()
        with contextlib.redirect_stdout(out):
            js = old(io.graph_to_json, g) if new else None
            x = old(io.to_graphml, g)
            h = old(io.json_to_graph, js) if new else None
        case.check(x == g.to_graphml(), "legacy:graphml", "another file")
        if new:
            case.check(js == g.to_json(), "legacy:json", "another file")
            case.check(h.to_json() == Graph.from_json(js).to_json(), "legacy:load", "another diagram")
        case.check('deprecated' in out.getvalue(), "legacy:notice", "no notice")
        case.see("op:legacy_new")
        return
    if any(g.type(v) in (ZB, WI, WO) for v in g.vertices()):
        for v in list(g.vertices()):
            if g.type(v) in (ZB, WI, WO):
                g.remove_vertex(v)
    nm = [g.vdata(v, 'name') for v in g.vertices()]
    for v in g.vertices():
        if g.vdata(v, 'name') and (nm.count(g.vdata(v, 'name')) > 1 or g.vdata(v, 'name')[0] in 'vb'):
            g.set_vdata(v, 'name', 'u%d' % v)
    tags(g)
    s = mon.snapshot(g)
    with contextlib.redirect_stdout(sio.StringIO()):
        js = io.graph_to_json(g, force_deprecated_behavior=True)
        which = r.random() < .5
        h = io.json_to_graph(js, force_deprecated_behavior=True) if which else Graph.from_json(js)
    case.check(mon.snapshot(g) == s, "legacy:mutated", "graph_to_json changed the diagram")
    # vertices of one kind are listed in their order; positions tell them apart
    m = of(g)
    at = {(float(h.row(v)), float(h.qubit(v))): v for v in h.vertices()}
    case.check(h.num_vertices() == len(m.v) and all((float(d['row']), float(d['q'])) in at for d in m.v.values()), "legacy:vertices", lambda: "%s becomes %s" % (gen.show(g), gen.show(h)))
    n = m.copy({v: at[float(d['row']), float(d['q'])] for v, d in m.v.items()})
    n.scalar = 1
    n.ins, n.outs = tuple(sorted(n.ins)), tuple(sorted(n.outs))
    for v, d in n.v.items():
        d['data'] = {'name': h.vdata(v, 'name')}
        if d['ty'] == B:
            d['phase'] = 0
    check(case, 'legacy', h, n, g)
    for v in m.v:
        if g.vdata(v, 'name'):
            case.check(h.vdata(at[float(g.row(v)), float(g.qubit(v))], 'name') == g.vdata(v, 'name'), "legacy:name", "another name")
    note(case, 'legacy', g)
    case.see("op:legacy_old" if which else "op:legacy_crossed")


KINDS = {'json': (k_json, 24000, 400000), 'tikz': (k_tikz, 16000, 250000), 'diff': (k_diff, 20000, 350000), 'other': (k_other, 12000, 200000), 'foreign': (k_foreign, 20000, 300000), 'legacy': (k_legacy, 5000, 80000)}
