"""P16: algebra of diagrams."""
from fractions import Fraction
import numpy as np
from .. import gen, mon, ref, wide
from ..run import Skip
from pyzx.graph import Graph
from pyzx.utils import EdgeType, VertexType, vertex_is_w

VT, ET = VertexType, EdgeType
RULE = "random diagrams with Z, X, H-box, Z-box and W vertices on both backends, combined by the algebra of diagrams and compared with the same combination of their matrices; non-trivial when the diagrams have at least 3 inner vertices and the matrix is nonzero; distinct by (operation, diagrams)"
ASSUMPTIONS = ["diagrams are well formed", "state and effect strings have one character per qubit", "normalize is used on diagrams whose boundaries are given or detectable"]
OPS = ['compose', 'iadd', 'add', 'mul', 'self_compose', 'chain', 'compose_refused', 'tensor', 'matmul', 'tensor_self', 'interchange', 'adjoint', 'adjoint_twice', 'copy', 'copy_simple', 'clone', 'translate', 'map_qubits', 'state', 'effect', 'skip', 'state_refused', 'sandwich',
       'subgraph', 'merge', 'is_id', 'not_id', 'detect', 'detect_refused', 'normalize', 'normalize_detect', 'rows', 'remove_isolated', 'bent', 'ground', 'ground_compose', 'ground_tensor', 'ground_copy', 'edge_table']
NEED = ['op:' + o for o in OPS] + ['simple', 'multigraph', 'nonzero', 'wire_in', 'hwire', 'unchanged', 'wide:compose', 'wide:adjoint', 'wide:state', 'wide:detect', 'wide:normalize']
ATOL = 1e-6


def diagram(case, n_in=None, n_out=None, backend=None, n=None, kinds=None):
    r = case.rng
    backend = backend or r.choice(['simple', 'multigraph'])
    n_in = r.randrange(0, 4) if n_in is None else n_in
    n_out = r.randrange(0, 4) if n_out is None else n_out
    kinds = kinds or r.choice(['ZX', 'ZX', 'ZXH', 'ZXB', 'ZXHB', 'ZXHBW'])
    bends = []
    rest_in, rest_out = n_in, n_out
    while rest_in and rest_out and r.random() < .18:
        bends.append('io')
        rest_in -= 1
        rest_out -= 1
    while rest_in > 1 and r.random() < .12:
        bends.append('ii')
        rest_in -= 2
    while rest_out > 1 and r.random() < .12:
        bends.append('oo')
        rest_out -= 2
    auto = backend == 'simple' or r.random() < .5
    g = gen.mixed(r, backend=backend, n=n or r.randrange(1, 6), kinds=kinds, n_in=rest_in, n_out=rest_out, auto=auto, par=0 if auto else .3, loops=0 if auto else .1, with_scalar=r.random() < .6)
    ins, outs = list(g.inputs()), list(g.outputs())
    for k in bends:
        et = r.choice([ET.SIMPLE, ET.HADAMARD])
        a, b = g.add_vertex(VT.BOUNDARY, r.randrange(4), 0), g.add_vertex(VT.BOUNDARY, r.randrange(4), 9)
        g.add_edge((a, b), et)
        (ins if k[0] == 'i' else outs).append(a)
        (ins if k[1] == 'i' else outs).append(b)
        case.see('wire_in' if k == 'io' else 'op:bent')
        if et == ET.HADAMARD:
            case.see('hwire')
    r.shuffle(ins)
    r.shuffle(outs)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    if r.random() < .5:
        for v in g.vertices():
            if r.random() < .4:
                g.set_row(v, r.choice([0, 1, 4, 7, 12, .5]))
    case.see(backend)
    return g


def mat(g):
    try:
        return ref.matrix(g)
    except ref.TooBig:
        raise Skip("too big")


def equal(case, what, want, g, *show, mats=None):
    s = mon.structure(g)
    case.check(s is None, what + ":structure", lambda: "%s: %s" % (what, s))
    got = mat(g) if mats is None else mats
    m = max(np.abs(want).max(initial=0), 1)
    case.check(ref.close(want, got, atol=ATOL * m), what, lambda: "%s: %s; from %s to %s" % (what, ref.describe(want, got), " and ".join(gen.show(x) for x in show), gen.show(g)))
    if np.abs(want).max(initial=0) > 1e-9:
        case.see('nonzero')
        if sum(x.num_vertices() - len(x.inputs()) - len(x.outputs()) for x in show) > 2:
            case.note(what, *map(gen.show, show))
    case.see("op:" + what)


def refuses(f):
    """Simple graphs document that some parallel edges cannot be represented."""
    try:
        return f()
    except ValueError as e:
        if 'unreducible' in str(e):
            raise Skip("unreducible parallel edge")
        raise


def same(case, g, snap, what):
    case.check(mon.snapshot(g) == snap, what + ":mutated", lambda: "%s changed its operand: %s" % (what, gen.show(g)))
    case.see("unchanged")


def k_compose(case):
    r = case.rng
    back = r.choice(['simple', 'multigraph'])
    k = r.randrange(0, 4)
    a = diagram(case, n_out=k, backend=back)
    if r.random() < .15:
        b = diagram(case, n_in=r.choice([x for x in range(4) if x != k]), backend=back)
        sa = mon.snapshot(a)
        try:
            a + b
        except TypeError:
            case.see("op:compose_refused")
            return same(case, a, sa, "compose_refused")
        case.fail("compose:refuse", "diagrams with %d outputs and %d inputs were composed" % (k, len(b.inputs())))
    b = diagram(case, n_in=k, backend=back if r.random() < .8 else None)
    ma, mb = mat(a), mat(b)
    sa, sb = mon.snapshot(a), mon.snapshot(b)
    x = r.random()
    if x < .2:
        res = refuses(lambda: a + b)
        equal(case, 'add', mb @ ma, res, a, b)
        same(case, a, sa, 'add')
    elif x < .4:
        res = refuses(lambda: b * a)
        equal(case, 'mul', mb @ ma, res, a, b)
        same(case, a, sa, 'mul')
    elif x < .55:
        res = a.clone()
        keep = res
        refuses(lambda: a + b)
        res += b
        case.check(res is keep, "iadd:inplace", "+= made another diagram")
        equal(case, 'iadd', mb @ ma, res, a, b)
    elif x < .8:
        res = a.clone()
        refuses(lambda: res.compose(b))
        equal(case, 'compose', mb @ ma, res, a, b)
    else:
        c = diagram(case, n_in=len(b.outputs()), backend=back)
        mc = mat(c)
        res = refuses(lambda: (a + b) + c) if r.random() < .5 else refuses(lambda: c * b * a)
        equal(case, 'chain', mc @ mb @ ma, res, a, b, c)
    same(case, b, sb, 'compose')
    if r.random() < .3 and len(a.inputs()) == k:
        d = a.clone()
        if r.random() < .5:
            refuses(lambda: d.compose(d))
        else:
            d = refuses(lambda: a + a)
        equal(case, 'self_compose', ma @ ma, d, a)
    # the composite does not share anything with the second diagram
    for v in list(res.vertices()):
        res.set_phase(v, 0)
        res.set_vdata(v, 'label', 7)
    res.scalar.add_power(3)
    same(case, b, sb, 'compose:alias')


def k_tensor(case):
    r = case.rng
    back = r.choice(['simple', 'multigraph'])
    a, b = diagram(case, backend=back, n_in=r.randrange(3), n_out=r.randrange(3)), diagram(case, backend=back if r.random() < .8 else None, n_in=r.randrange(3), n_out=r.randrange(3))
    ma, mb = mat(a), mat(b)
    sa, sb = mon.snapshot(a), mon.snapshot(b)
    x = r.random()
    if x < .3:
        res = refuses(lambda: a.tensor(b))
        equal(case, 'tensor', np.kron(ma, mb), res, a, b)
    elif x < .5:
        res = refuses(lambda: a @ b)
        equal(case, 'matmul', np.kron(ma, mb), res, a, b)
    elif x < .65:
        res = a @ a
        equal(case, 'tensor_self', np.kron(ma, ma), res, a)
    else:
        # (a;c) (x) (b;d) == (a (x) b);(c (x) d)
        c, d = diagram(case, n_in=len(a.outputs()), n_out=r.randrange(2), backend=back, n=2), diagram(case, n_in=len(b.outputs()), n_out=r.randrange(2), backend=back, n=2)
        want = np.kron(mat(c) @ ma, mat(d) @ mb)
        res = refuses(lambda: (a @ b) + (c @ d))
        equal(case, 'interchange', want, res, a, b, c, d)
        other = refuses(lambda: (a + c) @ (b + d))
        equal(case, 'interchange', want, other, a, b, c, d)
    same(case, a, sa, 'tensor')
    same(case, b, sb, 'tensor')
    for v in list(res.vertices()):
        res.set_phase(v, 0)
        res.set_vdata(v, 'label', 7)
    res.scalar.add_power(3)
    same(case, a, sa, 'tensor:alias')
    same(case, b, sb, 'tensor:alias')


def apart(case, g):
    """Takes a diagram apart into a component and the rest, and merges the two again."""
    vs = list(g.vertices())
    comp = component(g, case.rng.choice(vs))
    h = g.subgraph_from_vertices([v for v in vs if v in comp])
    rest = [v for v in vs if v not in comp]
    k = g.subgraph_from_vertices(rest)
    # the diagram is its component next to the rest, with the boundaries in the original order
    both = h.clone()
    back = dict(zip([v for v in vs if v in comp], list(h.vertices())))
    new, _ = both.merge(k)
    case.check(len(new) == len(rest), "merge:vertices", "merge returns %d vertices for %d" % (len(new), len(rest)))
    back.update(zip(rest, new))
    both.scalar.mult_with_scalar(g.scalar)
    both.set_inputs(tuple(back[v] for v in g.inputs()))
    both.set_outputs(tuple(back[v] for v in g.outputs()))
    return both


def k_one(case):
    r = case.rng
    g = diagram(case)
    m = mat(g)
    s = mon.snapshot(g)
    x = r.random()
    if x < .2:
        h = g.adjoint() if r.random() < .5 else g.copy(adjoint=True)
        equal(case, 'adjoint', m.conj().T, h, g)
        equal(case, 'adjoint_twice', m, h.adjoint(), g)
    elif x < .4:
        h = g.copy()
        equal(case, 'copy', m, h, g)
        c = g.clone()
        equal(case, 'clone', m, c, g)
        case.check(mon.snapshot(c) == s, "clone:same", "a clone differs from its original")
        h = refuses(lambda: g.copy(backend='simple'))
        equal(case, 'copy_simple', m, h, g)
    elif x < .5:
        h = g.translate(r.choice([0, 2, -1.5]), r.choice([0, 1, -3]))
        equal(case, 'translate', m, h, g)
        h = g.clone()
        n = max(1, h.qubit_count())
        h.map_qubits({i: (i, 0) for i in range(int(n) + 1)})
        equal(case, 'map_qubits', m, h, g)
    elif x < .65:
        both = apart(case, g)
        equal(case, 'subgraph', m, both, g)
        case.see("op:merge")
    elif x < .8:
        cut(case, g, m)
    elif x < .9:
        h = g.clone()
        h.pack_circuit_rows()
        equal(case, 'rows', m, h, g)
        h = g.clone()
        for _ in range(r.randrange(3)):
            scalar_part(h, r)
        want = mat(h)
        try:
            h.remove_isolated_vertices()
        except TypeError:
            raise Skip("refused")
        equal(case, 'remove_isolated', want, h, g)
    else:
        h = g.clone()
        zs = [v for v in h.vertices() if h.type(v) in (VT.Z, VT.X, VT.Z_BOX)]
        if len(zs) < 2:
            raise Skip("few spiders")
        etab, ref_g = {}, Graph('multigraph')
        ref_g.set_auto_simplify(False)
        ren = {}
        for v in h.vertices():
            ren[v] = ref_g.add_vertex(h.type(v), h.qubit(v), h.row(v), phase=h.phase(v))
            if h.type(v) == VT.Z_BOX:
                ref_g.set_vdata(ren[v], 'label', h.vdata(v, 'label', 1))
        for e in h.edges():
            a, b = h.edge_st(e)
            ref_g.add_edge((ren[a], ren[b]), h.edge_type(e))
        for _ in range(r.randrange(1, 4)):
            a, b = r.sample(zs, 2)
            if (a, b) in etab or (b, a) in etab:
                continue
            etab[(a, b)] = [r.randrange(4), r.randrange(4)]
            for _ in range(etab[(a, b)][0]):
                ref_g.add_edge((ren[a], ren[b]), ET.SIMPLE)
            for _ in range(etab[(a, b)][1]):
                ref_g.add_edge((ren[a], ren[b]), ET.HADAMARD)
        ref_g.set_inputs(tuple(ren[v] for v in h.inputs()))
        ref_g.set_outputs(tuple(ren[v] for v in h.outputs()))
        ref_g.scalar = h.scalar.copy()
        h.add_edge_table(etab)
        equal(case, 'edge_table', mat(ref_g), h, g)
    same(case, g, s, 'unary')


def component(g, v):
    seen, todo = {v}, [v]
    while todo:
        for w in g.neighbors(todo.pop()):
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def scalar_part(h, r):
    t = lambda: r.choice([VT.Z, VT.X, VT.H_BOX, VT.Z_BOX])
    a = h.add_vertex(t(), 0, 0, phase=r.choice([0, Fraction(1, 4), 1, Fraction(1, 2)]))
    ws = [a]
    if r.random() < .6:
        b = h.add_vertex(t(), 0, 1, phase=r.choice([0, Fraction(1, 4), 1, Fraction(3, 2)]))
        h.add_edge((a, b), r.choice([ET.SIMPLE, ET.HADAMARD]))
        ws.append(b)
    for w in ws:
        if h.type(w) == VT.Z_BOX and r.random() < .7:
            h.set_vdata(w, 'label', r.choice([2, 1j, -.5, 1 + 1j]))


def short(r, w):
    """Wires that are skipped at the end need not be mentioned."""
    n = len(w.rstrip('/'))
    return r.randrange(n, len(w) + 1) if r.random() < .5 else None


def cut(case, g, m):
    """States and effects."""
    r = case.rng
    ket = {'0': [1, 0], '1': [0, 1], '+': [2 ** -.5, 2 ** -.5], '-': [2 ** -.5, -2 ** -.5], '/': None}
    side = r.choice(['state', 'effect', 'sandwich'])
    h = g.clone()

    def word(n):
        return "".join(r.choice('01+-01+-/') for _ in range(n))
    want = m
    if side != 'effect':
        w = word(len(g.inputs()))
        if r.random() < .1:
            bad = w + r.choice('01+') if r.random() < .5 or not w else w[:-1] + 'x'
            try:
                h.apply_state(bad)
            except TypeError:
                case.see("op:state_refused")
                return
            case.fail("state:refuse", "apply_state(%r) accepted with %d inputs" % (bad, len(g.inputs())))
        h.apply_state(w[:k] if (k := short(r, w)) is not None else w)
        p = np.ones((1, 1))
        for c in w:
            p = np.kron(p, np.eye(2) if c == '/' else np.array(ket[c]).reshape(2, 1))
        want = want @ p
        if '/' in w:
            case.see("op:skip")
    if side != 'state':
        w2 = word(len(g.outputs()))
        if r.random() < .1:
            bad = w2 + r.choice('01+') if r.random() < .5 or not w2 else w2[:-1] + 'x'
            try:
                h.apply_effect(bad)
            except TypeError:
                case.see("op:state_refused")
                return
            case.fail("effect:refuse", "apply_effect(%r) accepted with %d outputs" % (bad, len(g.outputs())))
        h.apply_effect(w2[:k] if (k := short(r, w2)) is not None else w2)
        p = np.ones((1, 1))
        for c in w2:
            p = np.kron(p, np.eye(2) if c == '/' else np.array(ket[c]).reshape(1, 2))
        want = p @ want
        if '/' in w2:
            case.see("op:skip")
    equal(case, side, want, h, g)


def k_io(case):
    """Identities, detection of boundaries and normal placement."""
    r = case.rng
    x = r.random()
    if x < .3:
        n = r.randrange(0, 5) if r.random() < .8 else r.randrange(5, 15)
        g = Graph(r.choice(['simple', 'multigraph']))
        perm = list(range(n))
        if r.random() < .4:
            r.shuffle(perm)
        ins = [g.add_vertex(VT.BOUNDARY, i, 0) for i in range(n)]
        outs = [g.add_vertex(VT.BOUNDARY, i, 1) for i in range(n)]
        had = False
        for i in range(n):
            h = r.random() < .32 / max(4, n)
            had |= h
            if r.random() < .24 / max(4, n):
                v = g.add_vertex(VT.Z, i, .5)
                g.add_edge((ins[i], v))
                g.add_edge((v, outs[perm[i]]))
                had = True   # not only boundary vertices
            else:
                g.add_edge((ins[i], outs[perm[i]]), ET.HADAMARD if h else ET.SIMPLE)
        if n and r.random() < .1:
            outs = outs[:-1] if r.random() < .5 else outs
        g.set_inputs(tuple(ins))
        g.set_outputs(tuple(outs))
        bent = False
        if r.random() < .1:
            a, b = g.add_vertex(VT.BOUNDARY, n, 0), g.add_vertex(VT.BOUNDARY, n + 1, 0)
            c, d = g.add_vertex(VT.BOUNDARY, n, 1), g.add_vertex(VT.BOUNDARY, n + 1, 1)
            g.add_edge((a, b))
            g.add_edge((c, d))
            g.set_inputs(tuple(ins + [a, b]))
            g.set_outputs(tuple(outs + [c, d]))
            bent = True
        want = not had and perm == list(range(n)) and len(outs) == n and not bent
        case.check(bool(g.is_id()) == want, "is_id", lambda: "is_id() is %s for %s" % (g.is_id(), gen.show(g)))
        case.see("op:is_id" if want else "op:not_id")
        return
    g = diagram(case, kinds=r.choice(['ZX', 'ZX', 'ZXHB', 'Z']))
    # place boundaries left and right of everything, at distinct heights
    ins, outs = list(g.inputs()), list(g.outputs())
    hs = r.sample(range(12), len(ins)), r.sample(range(12), len(outs))
    step = r.choice([1, 1, .5, .25, -1, -.3])
    for v, h in zip(ins, hs[0]):
        g.set_position(v, h * step, r.choice([0, 0, -1]))
    for v, h in zip(outs, hs[1]):
        g.set_position(v, h * step, 30 + r.randrange(2))
    for v in g.vertices():
        if v not in ins and v not in outs:
            g.set_row(v, r.randrange(1, 20))
    bent = any(w in ins for v in ins for w in g.neighbors(v)) or any(w in outs for v in outs for w in g.neighbors(v))
    h = g.clone()
    detect = r.random() < .5 and not bent
    if detect:
        h.set_inputs(())
        h.set_outputs(())
        if r.random() < .15 and (ins or outs):
            # ambiguous: neighbour in the same column, or a boundary with two edges or none
            v = r.choice(ins + outs)
            y = r.random()
            if y < .5:
                h.set_row(v, h.row(next(iter(h.neighbors(v)))))
            elif y < .7:
                h.remove_edge(next(iter(h.incident_edges(v))))
            else:
                z = h.add_vertex(VT.Z, 3, 3)
                h.add_edge((v, z))
            try:
                h.auto_detect_io()
            except TypeError:
                case.see("op:detect_refused")
                return
            case.fail("auto_detect_io:refuse", "an ambiguous boundary was accepted in %s" % gen.show(h))
        h.auto_detect_io()
        wi, wo = tuple(sorted(ins, key=g.qubit)), tuple(sorted(outs, key=g.qubit))
        case.check((tuple(h.inputs()), tuple(h.outputs())) == (wi, wo), "auto_detect_io", lambda: "detected inputs %s and outputs %s, expected %s and %s in %s" % (h.inputs(), h.outputs(), wi, wo, gen.show(h)))
        case.see("op:detect")
        if r.random() < .5:
            return
    keep = h.clone()
    m = mat(h)
    if detect and r.random() < .5 and ins:
        h.set_inputs(())
        h.set_outputs(())
    h.normalize()
    equal(case, 'normalize_detect' if detect else 'normalize', m, h, keep)
    if not bent and (ins or outs):
        ri, ro = {h.row(v) for v in h.inputs()}, {h.row(v) for v in h.outputs()}
        rows = [h.row(v) for v in h.vertices()]
        case.check(len(ri) <= 1 and len(ro) <= 1 and ri <= {min(rows)} and ro <= {max(rows)}, "normalize:rows", lambda: "after normalize the inputs are in rows %s, the outputs in rows %s of %s" % (ri, ro, sorted(rows)))
        case.check([h.qubit(v) for v in sorted(h.inputs(), key=keep.qubit)] == list(range(len(ins))) and [h.qubit(v) for v in sorted(h.outputs(), key=keep.qubit)] == list(range(len(outs))), "normalize:qubits",
                   lambda: "after normalize inputs are on qubits %s and outputs on %s" % ([h.qubit(v) for v in h.inputs()], [h.qubit(v) for v in h.outputs()]))
        case.check(sorted(set(rows)) == list(range(len(set(rows)))), "normalize:packed", lambda: "rows %s" % sorted(set(rows)))


def k_ground(case):
    """Diagrams with grounds (discarding): the same algebra on their channels."""
    r = case.rng
    back = r.choice(['simple', 'multigraph'])

    def hybrid(n_in, n_out):
        g = diagram(case, n_in=n_in, n_out=n_out, backend=back, kinds='ZX', n=r.randrange(1, 5))
        for v in g.vertices():
            if g.type(v) in (VT.Z, VT.X) and r.random() < .4:
                g.set_ground(v)
        return g

    def chan(g):
        i, o = len(g.inputs()), len(g.outputs())
        try:
            t = ref.channel(g)
        except ref.TooBig:
            raise Skip("too big")
        # outputs, inputs, outputs', inputs' -> (outputs outputs') x (inputs inputs')
        ax = list(range(o)) + list(range(o + i, 2 * o + i)) + list(range(o, o + i)) + list(range(2 * o + i, 2 * o + 2 * i))
        return t.transpose(ax).reshape(4 ** o, 4 ** i)
    k = r.randrange(0, 3)
    a, b = hybrid(r.randrange(0, 2), k), hybrid(k, r.randrange(0, 2))
    ca, cb = chan(a), chan(b)
    x = r.random()
    if x < .5:
        h = refuses(lambda: a + b)
        equal(case, 'ground_compose', cb @ ca, h, a, b, mats=chan(h))
    elif x < .8:
        h = refuses(lambda: a @ b)
        t = np.kron(ca, cb)
        # reorder (oa oa' ob ob' ia ia' ib ib') to (oa ob oa' ob' ...)
        oa, ob, ia, ib = len(a.outputs()), len(b.outputs()), len(a.inputs()), len(b.inputs())
        t = t.reshape((2,) * (2 * (oa + ob + ia + ib)))

        def blocks(p, q, off):
            return [off + j for j in range(p)] + [off + 2 * p + j for j in range(q)] + [off + p + j for j in range(p)] + [off + 2 * p + q + j for j in range(q)]
        t = t.transpose(blocks(oa, ob, 0) + blocks(ia, ib, 2 * (oa + ob))).reshape(4 ** (oa + ob), 4 ** (ia + ib))
        equal(case, 'ground_tensor', t, h, a, b, mats=chan(h))
    elif x < .9:
        a = refuses(lambda: a @ b)
        if not a.num_vertices():
            raise Skip("empty")
        ca = chan(a)
        h = apart(case, a)
        equal(case, 'ground_subgraph', ca, h, a, mats=chan(h))
    else:
        for h, w in ((a.copy(), ca), (a.clone(), ca), (a.adjoint(), ca.conj().T)):
            equal(case, 'ground_copy', w, h, a, mats=chan(h))
    if a.grounds() or b.grounds():
        case.see("op:ground")


def k_wide(case):
    """Many wires: small diagrams side by side, wires permuted, two such layers composed, then states, effects, detection and placement."""
    r = case.rng
    back = r.choice(['simple', 'multigraph'])
    ket = {'0': [1, 0], '1': [0, 1], '+': [2 ** -.5, 2 ** -.5], '-': [2 ** -.5, -2 ** -.5]}

    def layer(total):
        """Diagrams side by side with `total` outputs. Returns diagram, and a function from input vectors to the tensor of the outputs."""
        parts = []
        while total:
            k = r.randrange(1, min(total, 3) + 1)
            parts.append(diagram(case, n_in=r.randrange(0, 3), n_out=k, backend=back, n=r.randrange(1, 4), kinds=r.choice(['ZX', 'ZXH'])))
            total -= k
        ts = [(len(p.inputs()), ref.tensor(p)) for p in parts]
        g = parts[0]
        for p in parts[1:]:
            g = refuses(lambda: g @ p)

        def f(vs):
            t, i = np.ones(()), 0
            for n, x in ts:
                for v in reversed(vs[i:i + n]):
                    x = x @ v
                i += n
                t = np.multiply.outer(t, x)
            return np.asarray(t)
        return g, f
    k = r.randrange(8, 13)
    a, fa = layer(k)
    b, fb = layer(k)
    b = b.adjoint()
    if r.random() < .7:
        perm = list(range(k))
        r.shuffle(perm)
        outs = a.outputs()
        a.set_outputs(tuple(outs[i] for i in perm))
    else:
        perm = list(range(k))
    c = refuses(lambda: a + b)
    s = mon.structure(c)
    case.check(s is None, "wide:structure", lambda: "composite: %s" % s)
    n, m = len(c.inputs()), len(c.outputs())
    case.check((n, m) == (len(a.inputs()), len(b.outputs())), "wide:io", "number of inputs or outputs of a composite")
    ins, outs = wide.vecs(r, n), wide.vecs(r, m)
    for v in ins + outs:
        v /= np.linalg.norm(v)

    def want(ins, outs):
        return np.sum(np.transpose(fa(ins), perm) * fb([v.conj() for v in outs]).conj())
    scale = max(np.linalg.norm(fa(ins)) * np.linalg.norm(fb([v.conj() for v in outs])), 1e-3)

    def agree(what, h, w, ins, outs):
        t = wide.probe(h, ins, outs)
        case.check(abs(t - w) <= 1e-6 * scale, "wide:" + what, lambda: "%s of %d and %d wires: a random vector gives %s instead of %s: %s and %s" % (what, n, k, t, w, gen.show(a), gen.show(b)))
    w0 = want(ins, outs)
    agree('compose', c, w0, ins, outs)
    case.see("wide:compose")
    x = r.random()
    if x < .3:
        agree('adjoint', c.adjoint(), w0.conjugate(), [v.conj() for v in outs], [v.conj() for v in ins])
        case.see("wide:adjoint")
    elif x < .65:
        h = c.clone()
        word = "".join(r.choice('01+-/') for _ in range(n))
        word2 = "".join(r.choice('01+-/') for _ in range(m))
        h.apply_state(word)
        h.apply_effect(word2)
        i2 = [v if q == '/' else np.array(ket[q], dtype=complex) for q, v in zip(word, ins)]
        o2 = [v if q == '/' else np.array(ket[q], dtype=complex) for q, v in zip(word2, outs)]
        case.check((len(h.inputs()), len(h.outputs())) == (word.count('/'), word2.count('/')), "wide:state_io", lambda: "%d inputs and %d outputs left after %r and %r" % (len(h.inputs()), len(h.outputs()), word, word2))
        agree('state', h, want(i2, o2), [v for q, v in zip(word, ins) if q == '/'], [v for q, v in zip(word2, outs) if q == '/'])
        case.see("wide:state")
    else:
        h = c.clone()
        hs = r.sample(range(20), n), r.sample(range(20), m)
        step = r.choice([1, .5, .25])
        for v, y in zip(h.inputs(), hs[0]):
            h.set_position(v, y * step, 0)
        for v, y in zip(h.outputs(), hs[1]):
            h.set_position(v, y * step, 50)
        io = set(h.inputs()) | set(h.outputs())
        for v in h.vertices():
            if v not in io:
                h.set_row(v, r.randrange(1, 40))
        wi, wo = list(h.inputs()), list(h.outputs())
        if not any(q in wi for v in wi for q in h.neighbors(v)) and not any(q in wo for v in wo for q in h.neighbors(v)):
            d = h.clone()
            d.set_inputs(())
            d.set_outputs(())
            d.auto_detect_io()
            case.check(tuple(d.inputs()) == tuple(sorted(wi, key=h.qubit)) and tuple(d.outputs()) == tuple(sorted(wo, key=h.qubit)), "wide:auto_detect_io", lambda: "detected inputs %s and outputs %s at heights %s and %s" % (d.inputs(), d.outputs(), [h.qubit(v) for v in d.inputs()], [h.qubit(v) for v in d.outputs()]))
            case.see("wide:detect")
        h.normalize()
        agree('normalize', h, w0, ins, outs)
        case.see("wide:normalize")
    case.note('wide', gen.show(a), gen.show(b))


KINDS = {'compose': (k_compose, 18000, 300000), 'tensor': (k_tensor, 10000, 200000), 'one': (k_one, 20000, 400000), 'io': (k_io, 16000, 300000), 'ground': (k_ground, 8000, 150000), 'wide': (k_wide, 1000, 15000)}
