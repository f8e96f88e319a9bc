"""P19: numeric evaluation of diagrams and scalars."""
import cmath
import math
import re
import warnings
from fractions import Fraction
import numpy as np
from .. import gen, gref, mon, ref
from ..run import Skip
import pyzx as zx
from pyzx.graph import Graph
from pyzx.graph.scalar import Scalar
from pyzx.symbolic import new_var
from pyzx.tensor import tensorfy, tensor_to_matrix, compare_tensors, compose_tensors, adjoint, is_unitary, find_scalar_correction
from pyzx.quimb import to_quimb_tensor
from pyzx.utils import EdgeType, VertexType
from .p16 import diagram as bent
from .p17 import of, differ

VT, ET = VertexType, EdgeType
RULE = "random diagrams (all vertex types, both backends, arbitrary rows, bent and bare wires, parallel edges and self-loops), circuits and scalars, evaluated by PyZX and by the separate reference; non-trivial when the diagram has at least 3 inner vertices and a nonzero value; distinct by (operation, diagram)"
ASSUMPTIONS = ["diagrams are well formed with inputs and outputs given", "numbers are compared to the precision with which they are computed (1e-7) or printed", "tensors compared up to a scalar have entries of ordinary magnitude"]
TENSOR = ['Z', 'X', 'H', 'ZB', 'W', 'had', 'parallel', 'loop', 'wire', 'bent', 'rows', 'isolated', 'closed', 'scalar', 'zero', 'wide']
REFUSE = ['ground', 'symbolic', 'undeclared', 'input_type', 'output_type', 'input_degree', 'output_degree']
NEED = ['tensor:' + t for t in TENSOR] + ['simple', 'multigraph', 'unscaled', 'unscaled_tiny', 'matrix', 'unchanged', 'circuit'] + ['refused:' + x for x in REFUSE] + ['compare:' + x for x in
        ('equal', 'scaled', 'different', 'noise', 'shape', 'zero', 'graphs', 'circuits', 'exact', 'exact_scaled', 'correction', 'correction_graphs')] + ['compose', 'adjoint', 'unitary:yes', 'unitary:no', 'unitary:isometry', 'unitary:zero'] + [
        'quimb:' + x for x in ('closed', 'open', 'leaf', 'isolated', 'zero', 'parallel', 'refused', 'wire', 'X')] + ['scalar:' + x for x in
        ('power', 'phase', 'node', 'float', 'pair', 'mult', 'copy', 'conjugate', 'zero', 'unknown', 'json', 'latex', 'unicode', 'polar', 'alias', 'minus')]
TOL = 1e-7


def evaluate(g):
    try:
        return ref.tensor(g)
    except ref.TooBig:
        raise Skip("too big")


def small(g, most=16):
    """Contracting the diagram row by row (as documented) must fit in memory."""
    rows = {v: g.row(v) for v in g.vertices()}
    ins = list(g.inputs())
    order = ins + sorted((v for v in rows if v not in ins), key=lambda v: (rows[v], v))
    pos = {v: i for i, v in enumerate(order)}
    ends = [g.edge_st(e) for e in g.edges()]
    width = [2 * len(ins)] + [len(ins)] * len(order)
    for a, b in ends:
        if a == b:
            width[pos[a] + 1] += 2
        for i in range(min(pos[a], pos[b]), max(pos[a], pos[b]) + 1):
            width[i + 1] += 1
    if max(width) + len(g.outputs()) > most:
        raise Skip("too wide")


def same(case, what, want, got, show):
    case.check(np.shape(got) == np.shape(want), what + ":shape", lambda: "%s: shape %s instead of %s: %s" % (what, np.shape(got), np.shape(want), show()))
    m = max(np.abs(want).max(initial=0), 1)
    case.check(ref.close(np.asarray(want), np.asarray(got), tol=TOL, atol=1e-8 * m), what, lambda: "%s: %s: %s" % (what, ref.describe(np.asarray(want), np.asarray(got)), show()))


def features(case, g, t):
    names = {VT.Z: 'Z', VT.X: 'X', VT.H_BOX: 'H', VT.Z_BOX: 'ZB', VT.W_OUTPUT: 'W'}
    for v in g.vertices():
        ty = g.type(v)
        if ty in names:
            case.see('tensor:' + names[ty])
            if g.vertex_degree(v) == 0:
                case.see('tensor:isolated')
    seen = set()
    for e in list(g.edges()):
        s, u = g.edge_st(e)
        if s == u:
            case.see('tensor:loop')
        if (s, u) in seen:
            case.see('tensor:parallel')
        seen.add((s, u))
        if g.edge_type(e) == ET.HADAMARD:
            case.see('tensor:had')
        if g.type(s) == g.type(u) == VT.BOUNDARY:
            case.see('tensor:wire')
            ins = g.inputs()
            if (s in ins) == (u in ins):
                case.see('tensor:bent')
    if not g.inputs() and not g.outputs():
        case.see('tensor:closed')
    if abs(g.scalar.to_number() - 1) > 1e-9:
        case.see('tensor:scalar')
    if np.abs(t).max(initial=0) < 1e-12:
        case.see('tensor:zero')
    if t.ndim >= 5:
        case.see('tensor:wide')


def some(case):
    r = case.rng
    x = r.random()
    b = r.choice(['simple', 'multigraph'])
    auto = b == 'simple' or r.random() < .3
    if x < .3:
        g = gen.diagram(r, backend=b)
    elif x < .45:
        g = gen.graphlike(r, backend=b)
    elif x < .7:
        g = bent(case)
        b = g.backend
    else:
        g = gen.mixed(r, backend=b, kinds=r.choice(['ZX', 'ZXH', 'ZXB', 'ZXHBW']), auto=auto, par=0 if auto else .35, loops=0 if auto else .15)
    if r.random() < .4:
        case.see('tensor:rows')
        k = r.choice([1, 3, 6])
        for v in list(g.vertices()):
            g.set_row(v, r.choice([r.randrange(k), r.randrange(k), -1, .5]))
            if r.random() < .3:
                g.set_qubit(v, r.randrange(5))
    if r.random() < .04:
        g.scalar.is_zero = True
    case.see(g.backend)
    return g


def number(g):
    return 0 if g.scalar.is_zero else complex(g.scalar.to_number())


def k_tensor(case):
    r = case.rng
    g = some(case)
    small(g)
    want = evaluate(g)
    before = of(g)
    features(case, g, want)
    x = r.random()
    if x < .5:
        got = g.to_tensor() if r.random() < .5 else tensorfy(g, True)
        same(case, "to_tensor", want, got, lambda: gen.show(g))
    elif x < .8:
        got = g.to_matrix()
        same(case, "to_matrix", want.reshape(2 ** len(g.outputs()), 2 ** len(g.inputs())), got, lambda: gen.show(g))
        case.see("matrix")
    else:
        plain = ref.tensor(g, scalar=False)
        got = g.to_tensor(preserve_scalar=False) if r.random() < .5 else g.to_matrix(False).reshape(plain.shape)
        case.check(np.shape(got) == plain.shape, "unscaled:shape", lambda: "to_tensor(False) of %s has shape %s" % (gen.show(g), np.shape(got)))
        m = max(np.abs(plain).max(initial=0), 1e-9)
        if m > 1e-6:
            ok, c = ref.close_up_to_scalar(plain, got)
            case.check(ok, "unscaled", lambda: "to_tensor(preserve_scalar=False): another tensor (up to a scalar): %s" % gen.show(g))
        case.see("unscaled")
    d = differ(g, before)
    case.check(d is None, "unchanged", lambda: "evaluating %s changed it: %s" % (gen.show(g), d))
    case.see("unchanged")
    inner = sum(1 for v in g.vertices() if g.type(v) != VT.BOUNDARY)
    if inner >= 3 and np.abs(want).max(initial=0) > 1e-9:
        case.note('tensor', x < .5, x < .8, gen.show(g))
        case.sample(gen.show(g))


def k_tiny(case):
    """Many factors of 1/sqrt(2): without scalars, the numbers are rescaled on the way."""
    r = case.rng
    g = Graph(r.choice(['simple', 'multigraph']))
    n = r.randrange(1, 3)
    cur = [g.add_vertex(VT.BOUNDARY, i, 0) for i in range(n)]
    g.set_inputs(tuple(cur))
    row = 1
    for _ in range(r.randrange(30, 90)):
        i = r.randrange(n)
        v = g.add_vertex(r.choice([VT.Z, VT.X]), i, row, gen.phase(r, 'cliffordT'))
        g.add_edge((cur[i], v), r.choice([ET.SIMPLE, ET.HADAMARD]))
        cur[i] = v
        # an effect that is not orthogonal to either basis state
        w = g.add_vertex(VT.X if g.type(v) == VT.Z else VT.Z, i, row, r.choice([Fraction(1, 4), Fraction(1, 2), Fraction(2, 5), Fraction(4, 3)]))
        g.add_edge((v, w))
        # a small number
        g.add_vertex(r.choice([VT.Z, VT.X]), i, row, r.choice([Fraction(9, 10), Fraction(7, 8), Fraction(1, 2)]))
        row += r.choice([0, 1])
    outs = []
    for i in range(n):
        b = g.add_vertex(VT.BOUNDARY, i, row + 1)
        g.add_edge((cur[i], b))
        outs.append(b)
    g.set_outputs(tuple(outs))
    want = ref.tensor(g, scalar=False)
    m = np.abs(want).max(initial=0)
    if not 1e-200 < m < 1e200:
        raise Skip("zero")
    got = g.to_tensor(False)
    a, b = want / m, got / max(np.abs(got).max(), 1e-300)
    # a rank one map may be a sum of cancelling terms: only compare what floating point supports
    i = np.unravel_index(np.argmax(np.abs(a)), a.shape)
    ok = abs(b[i]) > 1e-6 and np.abs(a - b * (a[i] / b[i])).max() < 1e-5
    case.check(ok, "unscaled_tiny", lambda: "to_tensor(preserve_scalar=False) of a long diagram with values around %.1g is not proportional to its map: %s" % (m, gen.show(g)))
    if m < 1e-6:
        case.see("unscaled_tiny")
        case.note('tiny', gen.show(g))


def refused(case, what, f, show):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = f()
    except (ValueError, TypeError, NotImplementedError):
        case.see("refused:" + what)
        return
    case.fail("refused:" + what, "a diagram that has no matrix (%s) was evaluated to %s: %s" % (what, np.asarray(res).ravel()[:4], show()))


def k_refuse(case):
    r = case.rng
    g = gen.diagram(r, backend=r.choice(['simple', 'multigraph']), n_in=r.randrange(1, 3), n_out=r.randrange(1, 3))
    k = r.choice(REFUSE)
    zx_ = [v for v in g.vertices() if g.type(v) in (VT.Z, VT.X)]
    if k == 'ground':
        if not zx_:
            raise Skip("no spider")
        g.set_ground(r.choice(zx_))
    elif k == 'symbolic':
        if not zx_:
            raise Skip("no spider")
        v = r.choice(zx_)
        g.set_phase(v, new_var('a', False) + r.choice([0, Fraction(1, 2)]))
    elif k == 'undeclared':
        if r.random() < .5:
            g.set_inputs(())
            g.set_outputs(())
        elif r.random() < .5:
            g.set_inputs(g.inputs()[1:])
        else:
            g.set_outputs(g.outputs()[1:])
    elif k == 'input_type':
        g.set_type(r.choice(g.inputs()), VT.Z)
    elif k == 'output_type':
        g.set_type(r.choice(g.outputs()), r.choice([VT.Z, VT.X]))
    else:
        b = r.choice(g.inputs() if k == 'input_degree' else g.outputs())
        if r.random() < .5 and k == 'output_degree':
            g.remove_edges(list(g.incident_edges(b)))
        else:
            others = [v for v in zx_ if not g.connected(v, b)]
            if not others:
                raise Skip("no spider")
            g.add_edge((b, r.choice(others)))
    small(g)
    refused(case, k, g.to_tensor if r.random() < .5 else g.to_matrix, lambda: gen.show(g))


def rtensor(r, n):
    m = np.array([complex(r.uniform(-1, 1), r.uniform(-1, 1)) if r.random() < .7 else 0 for _ in range(2 ** n)]).reshape((2,) * n)
    if np.abs(m).max() < .05:
        m[(0,) * n] = 1
    return m


def is_true(x):
    return bool(x) is True


def k_compare(case):
    r = case.rng
    n = r.randrange(0, 5)
    t = rtensor(r, n)
    z = cmath.rect(r.choice([1, .5, 2, 1e-3, 30, r.uniform(.1, 3)]), r.uniform(-3.1, 3.1))
    x = r.random()
    if x < .15:
        case.check(is_true(compare_tensors(t, t.copy())) and is_true(compare_tensors(t, np.asarray(t + 1e-12))), "compare", "equal tensors compare as different: %s" % t)
        case.check(is_true(compare_tensors(t, t.copy(), True)), "compare", "equal tensors compare as different with preserve_scalar=True: %s" % t)
        case.see("compare:equal")
        case.see("compare:exact")
    elif x < .35:
        u = np.asarray(z * t)
        if r.random() < .3:
            noise = np.array([complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(t.size)]).reshape(t.shape) * r.choice([3e-14, 1e-13, 1e-15, 1e-12])
            t = np.asarray(t + noise)
            case.see("compare:noise")
        case.check(is_true(compare_tensors(t, u)) and is_true(compare_tensors(u, t, False)), "compare:scaled", lambda: "tensors equal up to %s compare as different: %s" % (z, t.ravel()))
        case.see("compare:scaled")
        if abs(z - 1) > .01:
            case.check(not compare_tensors(t, u, True), "compare:exact_scaled", lambda: "tensors differing by %s compare as equal with preserve_scalar=True: %s" % (z, t.ravel()))
            case.see("compare:exact_scaled")
        c = find_scalar_correction(u, t)
        case.check(abs(c - z) < 1e-6 * abs(z) + 1e-9, "correction", lambda: "find_scalar_correction gives %s instead of %s" % (c, z))
        case.see("compare:correction")
    elif x < .6:
        if n == 0:
            raise Skip("scalar")
        u = t.copy()
        i = tuple(r.randrange(2) for _ in range(n))
        u[i] += cmath.rect(r.choice([.05, .5, 2]), r.uniform(-3, 3)) if r.random() < .6 else -2 * u[i]
        ok = np.abs(u).max() < 1e-3 or ref.close_up_to_scalar(t, u, 1e-3)[0]
        if ok:
            raise Skip("still proportional")
        u = np.asarray(u * (z if r.random() < .5 else 1))
        case.check(not compare_tensors(t, u) and not compare_tensors(u, t) and not compare_tensors(t, u, True), "compare:different", lambda: "different tensors compare as equal: %s and %s" % (t.ravel(), u.ravel()))
        case.see("compare:different")
    elif x < .7:
        k = r.choice([m for m in range(5) if m != n])
        u = rtensor(r, k) if r.random() < .4 else np.asarray(np.ones((2,) * k) * t.ravel()[0])
        try:
            res = compare_tensors(t, u, r.random() < .5)
        except (ValueError, TypeError):
            res = False
        case.check(not res, "compare:shape", lambda: "tensors of shapes %s and %s compare as equal" % (t.shape, u.shape))
        case.see("compare:shape")
    elif x < .78:
        o = np.zeros(t.shape)
        case.check(not compare_tensors(t, o) and not compare_tensors(t, o, True) and not compare_tensors(o, t, True), "compare:zero", lambda: "zero compares as equal to %s" % t)
        case.check(is_true(compare_tensors(o, o)), "compare:zero", "zero differs from zero")
        try:
            res = compare_tensors(o, t)
        except ValueError:
            res = False
        case.check(not res, "compare:zero", lambda: "zero compares as equal to %s" % t)
        case.see("compare:zero")
    elif x < .9:
        g = gen.diagram(r, n_in=r.randrange(3), n_out=r.randrange(3), backend=r.choice(['simple', 'multigraph']))
        small(g)
        h = g.copy()
        v = r.choice(list(h.vertices()))
        if h.type(v) in (VT.Z, VT.X) and r.random() < .6:
            h.add_to_phase(v, Fraction(r.randrange(1, 8), 4))
        elif r.random() < .5:
            h.scalar.add_power(2)
            h.scalar.add_phase(Fraction(1, 3))
        a, b = evaluate(g), evaluate(h)
        up, c = ref.close_up_to_scalar(a, b, 1e-6)
        far, _ = ref.close_up_to_scalar(a, b, 1e-3)
        eq = ref.close(a, b, 1e-6)
        if up != far or np.abs(a).max(initial=0) < 1e-3 or np.abs(b).max(initial=0) < 1e-3:
            raise Skip("borderline")
        args = [(g, h), (g, np.asarray(b)), (np.asarray(a), h), (h, g)][r.randrange(4)]
        got = compare_tensors(*args)
        case.check(bool(got) == up, "compare:graphs", lambda: "compare_tensors of diagrams says %s, the maps are %s: %s and %s" % (got, ref.describe(a, b), gen.show(g), gen.show(h)))
        got = compare_tensors(*args, preserve_scalar=True)
        case.check(bool(got) == eq, "compare:graphs_exact", lambda: "compare_tensors(preserve_scalar=True) says %s, the maps are %s: %s and %s" % (got, ref.describe(a, b), gen.show(g), gen.show(h)))
        case.see("compare:graphs")
        if up and not far is False:
            got = find_scalar_correction(g, h)
            i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
            want = a[i] / b[i]
            case.check(abs(got - want) < 1e-6 * max(abs(want), 1), "correction_graphs", lambda: "find_scalar_correction gives %s instead of %s: %s and %s" % (got, want, gen.show(g), gen.show(h)))
            case.see("compare:correction_graphs")
        case.note('compare', gen.show(g), gen.show(h))
    else:
        c = gen.circuit(r, nq=r.randrange(1, 4), ngates=r.randrange(1, 8), names=list(gen.BASIC))
        d = c.copy()
        if r.random() < .5:
            d.gates.insert(r.randrange(len(d.gates) + 1), gen.gate(r, d.qubits, ['T', 'S', 'NOT', 'HAD', 'Z'], 'cliffordT'))
        a, b = gref.circ(c), gref.circ(d)
        up = ref.close_up_to_phase(a, b)
        other = r.choice([d, d.to_graph(), d.to_tensor()])
        got = compare_tensors(c, other)
        case.check(bool(got) == up, "compare:circuits", lambda: "compare_tensors of circuits says %s, they are %s: %s and %s" % (got, ref.describe(a, b), gen.show_circ(c), gen.show_circ(d)))
        case.see("compare:circuits")
        case.note('circuits', gen.show_circ(c), gen.show_circ(d))


def k_linear(case):
    """tensor_to_matrix, compose_tensors, adjoint, is_unitary, tensors of circuits."""
    r = case.rng
    x = r.random()
    if x < .2:
        i, o = r.randrange(0, 4), r.randrange(0, 4)
        t = rtensor(r, i + o)
        got = tensor_to_matrix(t, i, o)
        case.check(got.shape == (2 ** o, 2 ** i) and np.array_equal(got, t.reshape(2 ** o, 2 ** i)), "tensor_to_matrix", lambda: "tensor_to_matrix with %d inputs and %d outputs: %s from %s" % (i, o, got, t))
        case.see("matrix")
    elif x < .4:
        n = r.randrange(1, 4)
        a, b = rtensor(r, 2 * n), rtensor(r, 2 * n)
        d = 2 ** n
        got = compose_tensors(a, b)
        case.check(np.allclose(got.reshape(d, d), b.reshape(d, d) @ a.reshape(d, d)), "compose", lambda: "compose_tensors on %d qubits is not the second after the first" % n)
        got = adjoint(a)
        case.check(np.allclose(got.reshape(d, d), a.reshape(d, d).conj().T), "adjoint", lambda: "adjoint on %d qubits is not the conjugate transpose" % n)
        try:
            compose_tensors(a, rtensor(r, 2 * n + 2))
        except TypeError:
            pass
        else:
            case.fail("compose", "tensors of %d and %d qubits were composed" % (n, n + 1))
        case.see("compose")
        case.see("adjoint")
        case.note('compose', a.tolist(), b.tolist())
    elif x < .65:
        c = gen.circuit(r, nq=r.randrange(1, 5), ngates=r.randrange(0, 9), names=list(gen.ALLG))
        want = gref.circ(c)
        got = c.to_matrix() if r.random() < .5 else c.to_tensor().reshape(want.shape)
        case.check(ref.close_up_to_phase(want, got), "circuit", lambda: "the matrix of a circuit: %s: %s" % (ref.describe(want, got), gen.show_circ(c)))
        ok, _ = ref.close_up_to_scalar(want, c.to_matrix(False))
        case.check(ok, "circuit", lambda: "to_matrix(False) of a circuit is another map: %s" % gen.show_circ(c))
        case.see("circuit")
        case.note('circuit', gen.show_circ(c))
    else:
        y = r.random()
        if y < .4:
            c = gen.circuit(r, nq=r.randrange(1, 4), ngates=r.randrange(0, 8), names=list(gen.BASIC))
            g = c.to_graph(backend=r.choice(['simple', 'multigraph']))
            if r.random() < .5:
                g.scalar.add_power(r.randrange(-3, 4))
                g.scalar.add_phase(Fraction(1, 3))
        elif y < .6:
            c = gen.circuit(r, nq=r.randrange(2, 4), ngates=r.randrange(0, 8), names=list(gen.BASIC))
            g = c.to_graph()
            s = r.choice(['0', '+', '1', '-']) + '/' * (c.qubits - 1)
            if r.random() < .5:
                g.apply_state(s)
            else:
                g.apply_effect(s)
            case.see("unitary:isometry")
        else:
            g = gen.diagram(r, n_in=r.randrange(0, 3), n_out=r.randrange(0, 3), backend=r.choice(['simple', 'multigraph']))
        if r.random() < .08:
            g.scalar.is_zero = True
            case.see("unitary:zero")
        small(g)
        small(g.adjoint())
        m = evaluate(g).reshape(2 ** len(g.outputs()), 2 ** len(g.inputs()))
        if m.shape[0] != m.shape[1]:
            want = False
        else:
            p = m @ m.conj().T
            c = np.trace(p).real / len(p)
            if 1e-12 < c < 1e-3:
                raise Skip("small")
            want = c > 1e-9 and np.abs(p - c * np.eye(len(p))).max() < 1e-6 * c
            if not want and c > 1e-9 and np.abs(p - c * np.eye(len(p))).max() < 1e-3 * c:
                raise Skip("borderline")
        before = of(g)
        got = is_unitary(g)
        case.check(bool(got) == bool(want), "is_unitary", lambda: "is_unitary says %s: %s" % (got, gen.show(g)))
        d = differ(g, before)
        case.check(d is None, "unchanged", lambda: "is_unitary changed its diagram: %s" % d)
        case.see("unitary:yes" if want else "unitary:no")
        case.note('unitary', gen.show(g))


def k_quimb(case):
    r = case.rng
    b = r.choice(['simple', 'multigraph'])
    auto = b == 'simple' or r.random() < .5
    closed = r.random() < .4
    k = {'n_in': 0, 'n_out': 0} if closed else {}
    if r.random() < .1:
        g = gen.mixed(r, backend=b, kinds=r.choice(['ZXH', 'ZXB', 'ZXHBW']), n=4)
        if all(g.type(v) in (VT.Z, VT.X, VT.BOUNDARY) for v in g.vertices()):
            raise Skip("only spiders")
        try:
            tn = to_quimb_tensor(g)
        except NotImplementedError:
            case.see("quimb:refused")
            return
    else:
        g = gen.mixed(r, backend=b, kinds='ZX', auto=auto, par=0 if auto else .35, loops=0 if auto else .1, **k) if r.random() < .4 else gen.diagram(r, backend=b, **k) if closed or r.random() < .5 else bent(case, kinds='ZX')
        if r.random() < .05:
            g.scalar.is_zero = True
        before = of(g)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tn = to_quimb_tensor(g)
        d = differ(g, before)
        case.check(d is None, "unchanged", lambda: "to_quimb_tensor changed its diagram: %s" % d)
    want = evaluate(g)
    # the network is that of a copy, whose vertices are numbered consecutively
    name = {v: str(i) for i, v in enumerate(g.vertices())}
    inds = tuple(name[v] for v in g.outputs() + g.inputs())
    case.check(set(tn.outer_inds()) == set(inds), "quimb:indices", lambda: "the network has the open indices %s instead of %s: %s" % (sorted(tn.outer_inds()), sorted(inds), gen.show(g)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = tn.contract(output_inds=inds)
    if inds:
        got = res.transpose(*inds).data if hasattr(res, 'transpose') else res
    else:
        got = np.asarray(res.data if hasattr(res, 'inds') else res)
    same(case, "quimb", want, np.asarray(got).reshape(want.shape), lambda: gen.show(g))
    case.see("quimb:closed" if not inds else "quimb:open")
    for v in g.vertices():
        if g.type(v) == VT.X:
            case.see("quimb:X")
        if g.type(v) != VT.BOUNDARY and g.vertex_degree(v) == 1 and g.phase(v) == 0:
            case.see("quimb:leaf")
        if g.vertex_degree(v) == 0:
            case.see("quimb:isolated")
    es = [g.edge_st(e) for e in g.edges()]
    if len(set(es)) < len(es):
        case.see("quimb:parallel")
    if any(g.type(a) == g.type(b) == VT.BOUNDARY for a, b in es):
        case.see("quimb:wire")
    if g.scalar.is_zero:
        case.see("quimb:zero")
    case.note('quimb', gen.show(g))


# ---------------------------------------------------------------- scalars
SUP = {c: i for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}
FRAC = {'¼': .25, '½': .5, '¾': .75}


def read_latex(s):
    if s == '':
        return 1
    assert s[0] == '$' and s[-1] == '$', s
    s = s[1:-1]
    m = re.fullmatch(r"(?P<f>-?1?|-|\([^()]*\)|[-+0-9.eE]+j?)?(\\sqrt\{2\}\^\{(?P<p>-?\d+)\})?(\\exp\(i~\\frac\{(?P<n>-?\d+)\\pi\}\{(?P<d>\d+)\}\))?", s)
    assert m and s, s
    f = m.group('f')
    v = 1 if not f else -1 if f == '-' else complex(f)
    if m.group('p'):
        v *= math.sqrt(2) ** int(m.group('p'))
    if m.group('n'):
        v *= cmath.exp(1j * math.pi * int(m.group('n')) / int(m.group('d')))
    return v


def read_unicode(s):
    if s == '':
        return 1
    m = re.fullmatch(r"(?P<f>-1|-|\([^()]*\)|[-+0-9.eE]+?j?)?(√2(?P<s>⁻)?(?P<p>[⁰¹²³⁴⁵⁶⁷⁸⁹]+))?(exp\(i(?P<e>[^π]+)π\))?", s)
    assert m, s
    f = m.group('f')
    v = 1 if not f else -1 if f == '-' else complex(f)
    if m.group('p'):
        k = int(''.join(str(SUP[c]) for c in m.group('p')))
        v *= math.sqrt(2) ** (-k if m.group('s') else k)
    e = m.group('e')
    if e:
        v *= cmath.exp(1j * math.pi * (FRAC[e] if e in FRAC else float(Fraction(e))))
    return v


def read_polar(s):
    m = re.fullmatch(r"([-+0-9.einf]+)( \* exp\(i pi \* ([-+0-9.e]+)\))?", s)
    return float(m.group(1)) * cmath.exp(1j * math.pi * float(m.group(3) or 0))


def k_scalar(case):
    r = case.rng
    pool = [(Scalar(), 1 + 0j, False)]
    log = []

    def ph():
        return r.choice([Fraction(0), Fraction(1), Fraction(1, 2), Fraction(3, 2), Fraction(k4 := r.randrange(8), 4), Fraction(r.randrange(0, 12), 6), Fraction(r.randrange(0, 200), 100), 0, 1]) if r.random() < .95 else Fraction(k4 := r.randrange(-9, 20), 4)
    for _ in range(r.randrange(1, 12)):
        i = r.randrange(len(pool))
        s, v, z = pool[i]
        op = r.choice(['power', 'phase', 'node', 'float', 'pair', 'mult', 'copy', 'conjugate', 'zero', 'json', 'unknown'])
        if op in ('zero', 'unknown') and r.random() < .7:
            continue
        if op == 'power':
            n = r.randrange(-5, 6)
            s.add_power(n)
            v *= math.sqrt(2) ** n
            log.append((i, op, n))
        elif op == 'phase':
            p = ph()
            s.add_phase(p)
            v *= ref.ephase(p)
            log.append((i, op, p))
        elif op == 'node':
            p = ph()
            s.add_node(p)
            v *= 1 + ref.ephase(p)
            z = z or p == 1
            log.append((i, op, p))
        elif op == 'float':
            f = r.choice([complex(r.uniform(.2, 2), r.uniform(-1, 1)), -1.0, 1j, .5, -1, 2, -2.0, 1.0])
            s.add_float(f)
            v *= f
            log.append((i, op, f))
        elif op == 'pair':
            p, q = ph() % 2, ph() % 2
            if r.random() < .25:
                q = -p % 2
            s.add_spider_pair(p, q)
            a, b = ref.ephase(p), ref.ephase(q)
            f = (1 + a + b - a * b) / math.sqrt(2)
            v *= f
            log.append((i, op, p, q))
        elif op == 'mult':
            t, w, y = pool[r.randrange(len(pool))]
            if t is s:
                t = t.copy()
            s.mult_with_scalar(t)
            v *= w
            z = z or y
            log.append((i, op, str(t)))
        elif op in ('copy', 'conjugate'):
            if len(pool) > 4:
                continue
            if op == 'copy':
                t = s.copy() if r.random() < .7 else Scalar.from_json(s.to_json())
                pool.append((t, v, z))
            else:
                t = s.conjugate() if r.random() < .5 else s.copy(conjugate=True)
                pool.append((t, v.conjugate(), z))
            case.see("scalar:alias")
            log.append((i, op))
        elif op == 'zero':
            if r.random() < .5:
                s.add_float(0)
            else:
                s.add_node(1)
            v = 0j
            z = True
            log.append((i, op))
        elif op == 'json':
            s = Scalar.from_json(s.to_json())
            log.append((i, op))
        elif op == 'unknown':
            t = s.copy()
            t.set_unknown()
            t2 = pool[r.randrange(len(pool))][0].copy() if r.random() < .6 else Scalar()
            t3 = t.copy()
            if r.random() < .5:
                t3.mult_with_scalar(t2)
            t2.mult_with_scalar(t)
            case.check(t.copy().is_unknown and t2.is_unknown and t3.is_unknown and t.conjugate().is_unknown and Scalar.from_json(t.to_json()).is_unknown and not s.is_unknown, "unknown", "an unknown scalar became known after %s" % log)
            z0 = t.is_zero
            case.check(z0 or t.to_latex() == t.to_unicode() == 'Unknown', "unknown", "an unknown scalar is printed as %s" % t.to_latex())
        case.see("scalar:" + op)
        pool[i] = (s, v, z)
        for t, w, y in pool:
            try:
                got = complex(t)
            except TypeError as e:
                case.fail("scalar:complex", "complex() of the scalar %s fails (%s) after %s" % (w, e, log))
            case.check(abs(got - w) <= 1e-9 * max(1, abs(w)) and got == t.to_number(), "scalar:" + op, lambda: "the scalar is %s instead of %s after %s" % (got, w, log))
            if y:
                case.check(t.is_zero and got == 0, "scalar:is_zero", lambda: "a zero scalar does not say so after %s" % log)
            case.check(not t.is_zero or abs(w) < 1e-9, "scalar:is_zero", lambda: "a nonzero scalar says it is zero after %s" % log)
    if log:
        case.note('scalar', log)
    for t, w, y in pool:
        if abs(w) < 1e-6 and not y or abs(w) > 1e9:
            continue
        for what, text, read in (('latex', t.to_latex(), read_latex), ('unicode', t.to_unicode(), read_unicode), ('polar', t.polar_str(), read_polar)):
            tol = {'latex': 3e-3, 'unicode': 3e-3, 'polar': 3e-2}[what]
            try:
                got = read(text) if text != '0' else 0
            except AssertionError:
                case.fail("text:" + what, "the scalar %s is printed as %r after %s" % (w, text, log))
            case.check(abs(got - w) <= tol * max(abs(w), 1e-9), "text:" + what, lambda: "the scalar %s is printed as %r after %s" % (w, text, log))
            case.see("scalar:" + what)
            if abs(w + 1) < 1e-9:
                case.see("scalar:minus")


KINDS = {'tensor': (k_tensor, 16000, 400000), 'tiny': (k_tiny, 600, 20000), 'refuse': (k_refuse, 3000, 40000), 'compare': (k_compare, 9000, 200000), 'linear': (k_linear, 7000, 150000), 'quimb': (k_quimb, 2500, 60000), 'scalar': (k_scalar, 14000, 300000)}
