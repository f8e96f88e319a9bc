"""Random generators of inputs.  They use the case's own RNG and only the public construction API
(add_vertex / add_edge / set_phase / Circuit.add_gate), never pyzx.generate."""
from fractions import Fraction
import pyzx as zx
from pyzx.utils import VertexType as VT, EdgeType as ET
from pyzx.graph import Graph
from pyzx.graph.scalar import Scalar
from pyzx.circuit import Circuit
from pyzx.circuit import gates as G

CLIFFORD = [Fraction(k, 2) for k in range(4)]
PAULI = [Fraction(0), Fraction(1)]
CLIFFT = [Fraction(k, 4) for k in range(8)]


def phase(rng, mode):
    """mode: pauli, clifford, cliffordT, wild (odd denominators), mix"""
    if mode == 'mix':
        mode = rng.choice(['pauli', 'clifford', 'clifford', 'cliffordT', 'cliffordT', 'wild'])
    if mode == 'zero':
        return Fraction(0)
    if mode == 'pauli':
        return rng.choice(PAULI)
    if mode == 'clifford':
        return rng.choice(CLIFFORD)
    if mode == 'cliffordT':
        return rng.choice(CLIFFT)
    d = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 64, 100, 255])
    return Fraction(rng.randrange(-2 * d, 4 * d), d)


def split(r, g, bs):
    """Makes these boundaries the outputs, or some of them inputs, in any order."""
    bs = list(bs)
    ins = []
    if r.random() < .5:
        r.shuffle(bs)
        k = r.randrange(len(bs) + 1)
        ins, bs = bs[:k], bs[k:]
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(bs))


def scalar(rng, rich=True):
    s = Scalar()
    r = rng.random()
    if r < 0.5:
        return s
    s.add_power(rng.randrange(-4, 5))
    s.add_phase(phase(rng, 'cliffordT'))
    if rich and rng.random() < 0.4:
        s.add_node(phase(rng, 'wild'))
    if rich and rng.random() < 0.3:
        s.add_float(complex(rng.uniform(0.3, 2), rng.uniform(-1, 1)))
    return s


def shuffle(rng, l):
    l = list(l)
    rng.shuffle(l)
    return l


def diagram(rng, n_in=None, n_out=None, n_spiders=None, phases='mix', backend='simple', ph=0.4, px=0.3,
            density=None, bare=0.06, bound_h=0.25, multi_boundary=True, isolated=0.05, with_scalar=True,
            pnz=0.7, order_mix=True, clustered=False):
    """An arbitrary ZX-diagram (Z/X spiders, simple/Hadamard edges, possibly bare wires, several
    boundaries on one spider, isolated spiders, disconnected parts, legless scalars)."""
    n_in = rng.randrange(0, 4) if n_in is None else n_in
    n_out = rng.randrange(0, 4) if n_out is None else n_out
    n = rng.randrange(1, 11) if n_spiders is None else n_spiders
    g = Graph(backend)
    io = ['i'] * n_in + ['o'] * n_out
    create = ['s'] * n + io
    if order_mix:
        rng.shuffle(create)   # vertex numbering must not be aligned with the diagram structure
    ins, outs, sp = [], [], []
    for c in create:
        if c == 's':
            ty = VT.X if rng.random() < px else VT.Z
            v = g.add_vertex(ty, qubit=rng.randrange(0, 4), row=rng.randrange(0, 9))
            if rng.random() < pnz:
                g.set_phase(v, phase(rng, phases))
            sp.append(v)
        elif c == 'i':
            ins.append(g.add_vertex(VT.BOUNDARY, qubit=len(ins), row=0))
        else:
            outs.append(g.add_vertex(VT.BOUNDARY, qubit=len(outs), row=10))
    rng.shuffle(ins)
    rng.shuffle(outs)
    free = ins + outs
    rng.shuffle(free)
    et = lambda p: ET.HADAMARD if rng.random() < p else ET.SIMPLE
    # bare wires
    while len(free) >= 2 and rng.random() < bare:
        a, b = free.pop(), free.pop()
        g.add_edge((a, b), et(0.3))
    if not sp and len(free) % 2:
        sp.append(g.add_vertex(VT.Z, 0, 5))
    if not sp:
        while free:
            g.add_edge((free.pop(), free.pop()), et(0.3))
    used = set()
    for b in free:
        cand = sp if multi_boundary else [v for v in sp if v not in used]
        if not cand:
            v = g.add_vertex(VT.Z, 0, 5)
            sp.append(v)
        else:
            v = rng.choice(cand)
        used.add(v)
        g.add_edge((b, v), et(bound_h))
    m = len(sp)
    if m > 1:
        order = shuffle(rng, sp)
        for i in range(1, m):
            if rng.random() < isolated:
                continue
            j = rng.randrange(max(0, i - 3), i) if clustered else rng.randrange(i)
            add_any(g, rng, order[i], order[j], et(ph))
        extra = int(m * (rng.random() * 1.2 if density is None else density))
        for _ in range(extra):
            a, b = rng.sample(sp, 2)
            add_any(g, rng, a, b, et(ph))
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    if with_scalar:
        g.scalar = scalar(rng)
    return g


def add_any(g, rng, a, b, et):
    """Add an edge; on the simple backend an existing edge is left alone (no implicit resolution)."""
    if g.backend == 'multigraph' or not g.connected(a, b):
        g.add_edge((a, b), et)
        return True
    return False


def graphlike(rng, n_in=None, n_out=None, n=None, phases='mix', backend='simple', p=None, gadgets=None,
              bound_h=0.0, with_scalar=True, pnz=0.75, interior_pauli=0.3):
    """Graph-like: Z spiders, Hadamard edges, boundaries by plain edges on distinct spiders; plus phase
    gadgets."""
    n_in = rng.randrange(0, 4) if n_in is None else n_in
    n_out = rng.randrange(0, 4) if n_out is None else n_out
    n = max(n_in + n_out, rng.randrange(1, 10) if n is None else n, 1)
    g = Graph(backend)
    ins = [g.add_vertex(VT.BOUNDARY, i, 0) for i in range(n_in)]
    perm_first = rng.random() < 0.5
    outs = [g.add_vertex(VT.BOUNDARY, i, 9) for i in range(n_out)] if perm_first else []
    sp = [g.add_vertex(VT.Z, rng.randrange(0, 4), rng.randrange(1, 8)) for _ in range(n)]
    if not perm_first:
        outs = [g.add_vertex(VT.BOUNDARY, i, 9) for i in range(n_out)]
    for v in sp:
        if rng.random() < pnz:
            g.set_phase(v, phase(rng, 'pauli' if rng.random() < interior_pauli else phases))
    hosts = rng.sample(sp, n_in + n_out)
    for b, v in zip(ins + outs, hosts):
        g.add_edge((b, v), ET.HADAMARD if rng.random() < bound_h else ET.SIMPLE)
    p = rng.choice([0.2, 0.35, 0.5, 0.8]) if p is None else p
    for i in range(n):
        for j in range(i):
            if rng.random() < p:
                g.add_edge((sp[i], sp[j]), ET.HADAMARD)
    ng = rng.randrange(0, 4) if gadgets is None else gadgets
    prev = []
    for _ in range(ng):
        hub = g.add_vertex(VT.Z, -1, 5)
        leaf = g.add_vertex(VT.Z, -2, 5)
        if rng.random() < 0.15:
            g.set_phase(hub, Fraction(1))
        g.set_phase(leaf, phase(rng, phases))
        g.add_edge((hub, leaf), ET.HADAMARD)
        if prev and rng.random() < 0.35:
            tg = rng.choice(prev)          # same target set: must be fused
        else:
            tg = rng.sample(sp, rng.randrange(1, min(len(sp), 4) + 1))
        prev.append(tg)
        for t in tg:
            g.add_edge((hub, t), ET.HADAMARD)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    if with_scalar:
        g.scalar = scalar(rng)
    return g


def multi(rng, **kw):
    """A multigraph-backend diagram with genuine parallel edges and self-loops."""
    g = Graph('multigraph')
    return g


# ------------------------------------------------------------------ circuits
ONE = {
    'ZPhase': lambda r, q, m: G.ZPhase(q[0], phase(r, m)), 'XPhase': lambda r, q, m: G.XPhase(q[0], phase(r, m)),
    'YPhase': lambda r, q, m: G.YPhase(q[0], phase(r, m)),
    'Z': lambda r, q, m: G.Z(q[0]), 'NOT': lambda r, q, m: G.NOT(q[0]), 'Y': lambda r, q, m: G.Y(q[0]),
    'S': lambda r, q, m: G.S(q[0], adjoint=r.random() < 0.4), 'T': lambda r, q, m: G.T(q[0], adjoint=r.random() < 0.4),
    'SX': lambda r, q, m: G.SX(q[0], adjoint=r.random() < 0.4), 'HAD': lambda r, q, m: G.HAD(q[0]),
    'U2': lambda r, q, m: G.U2(q[0], phase(r, m), phase(r, m)),
    'U3': lambda r, q, m: G.U3(q[0], phase(r, m), phase(r, m), phase(r, m)),
}
TWO = {
    'CNOT': lambda r, q, m: G.CNOT(q[0], q[1]), 'CZ': lambda r, q, m: G.CZ(q[0], q[1]),
    'XCX': lambda r, q, m: G.XCX(q[0], q[1]), 'SWAP': lambda r, q, m: G.SWAP(q[0], q[1]),
    'CY': lambda r, q, m: G.CY(q[0], q[1]), 'CSX': lambda r, q, m: G.CSX(q[0], q[1]),
    'CHAD': lambda r, q, m: G.CHAD(q[0], q[1]),
    'CRX': lambda r, q, m: G.CRX(q[0], q[1], phase(r, m)), 'CRY': lambda r, q, m: G.CRY(q[0], q[1], phase(r, m)),
    'CRZ': lambda r, q, m: G.CRZ(q[0], q[1], phase(r, m)), 'CPhase': lambda r, q, m: G.CPhase(q[0], q[1], phase(r, m)),
    'RXX': lambda r, q, m: G.RXX(q[0], q[1], phase(r, m)), 'RZZ': lambda r, q, m: G.RZZ(q[0], q[1], phase(r, m)),
    'CU3': lambda r, q, m: G.CU3(q[0], q[1], phase(r, m), phase(r, m), phase(r, m)),
    'CU': lambda r, q, m: G.CU(q[0], q[1], phase(r, m), phase(r, m), phase(r, m), phase(r, m)),
    'FSim': lambda r, q, m: G.FSim(q[0], q[1], Fraction(1, 2), phase(r, m)),
    'ParityPhase': lambda r, q, m: G.ParityPhase(phase(r, m), *q[:r.randrange(1, len(q) + 1)]),
}
THREE = {
    'CCZ': lambda r, q, m: G.CCZ(q[0], q[1], q[2]), 'Tof': lambda r, q, m: G.Tofolli(q[0], q[1], q[2]),
    'CSWAP': lambda r, q, m: G.CSWAP(q[0], q[1], q[2]),
}
ALLG = {}
ALLG.update(ONE); ALLG.update(TWO); ALLG.update(THREE)
BASIC = ['ZPhase', 'XPhase', 'Z', 'NOT', 'S', 'T', 'HAD', 'CNOT', 'CZ']
CLIFF = ['Z', 'NOT', 'S', 'HAD', 'CNOT', 'CZ']
CLIFFTG = ['Z', 'NOT', 'S', 'T', 'HAD', 'CNOT', 'CZ']
MEDIUM = BASIC + ['SX', 'SWAP', 'XCX', 'CPhase', 'CRZ', 'RZZ', 'ParityPhase', 'CCZ', 'Tof', 'YPhase', 'Y', 'CY', 'CSX']


def gate(rng, nq, names, mode):
    for _ in range(100):
        n = rng.choice(names)
        k = 1 if n in ONE else 2 if n in TWO else 3
        if k > nq:
            continue
        q = rng.sample(range(nq), min(nq, 4 if n == 'ParityPhase' else k))
        return ALLG[n](rng, q, mode)
    return G.HAD(rng.randrange(nq))


def circuit(rng, nq=None, ngates=None, names=BASIC, mode='cliffordT'):
    nq = rng.randrange(1, 6) if nq is None else nq
    ngates = rng.randrange(0, 31) if ngates is None else ngates
    c = Circuit(nq)
    for _ in range(ngates):
        c.add_gate(gate(rng, nq, names, mode))
    return c


def show_circ(c):
    return "%dq: %s" % (c.qubits, "; ".join(str(x) for x in c.gates))


def show(g):
    """Canonical text of a diagram, for signatures and samples."""
    vs = sorted(g.vertices())
    return "V[%s] E[%s] in%s out%s" % (
        " ".join("%s%s%s" % (v, "BZXHwWZ"[int(g.type(v))], ":" + str(g.phase(v)) if g.phase(v) else "") for v in vs),
        " ".join(sorted("%s%s%s" % (min(g.edge_st(e)), "?-=w"[int(g.edge_type(e))], max(g.edge_st(e))) for e in g.edges())),
        tuple(g.inputs()), tuple(g.outputs()))


def mixed(rng, backend='simple', n=None, kinds='ZX', n_in=None, n_out=None, phases='mix', par=0.0, loops=0.0,
          auto=True, ph=0.35, density=None, with_scalar=True, hphase=None):
    """Diagrams mixing generators. kinds is a string over Z, X, H (H-box), B (Z-box), W (W node pairs).
    par/loops: probability of parallel edges / self-loops (multigraph backend with auto-simplify off)."""
    g = Graph(backend)
    if backend == 'multigraph':
        g.set_auto_simplify(auto)
    n = rng.randrange(1, 8) if n is None else n
    n_in = rng.randrange(0, 3) if n_in is None else n_in
    n_out = rng.randrange(0, 3) if n_out is None else n_out
    et = lambda p: ET.HADAMARD if rng.random() < p else ET.SIMPLE
    sp, w_in_free = [], []
    for _ in range(n):
        k = rng.choice(kinds)
        q, r = rng.randrange(0, 4), rng.randrange(1, 9)
        if k == 'Z':
            v = g.add_vertex(VT.Z, q, r, phase=phase(rng, phases) % 2 if rng.random() < 0.7 else None)
        elif k == 'X':
            v = g.add_vertex(VT.X, q, r, phase=phase(rng, phases) % 2 if rng.random() < 0.7 else None)
        elif k == 'H':
            v = g.add_vertex(VT.H_BOX, q, r)
            g.set_phase(v, phase(rng, hphase or rng.choice(['pauli', phases])) % 2 if rng.random() < 0.5 else Fraction(1))
        elif k == 'B':
            v = g.add_vertex(VT.Z_BOX, q, r)
            lab = rng.choice([1, -1, 1j, 0.5, 2, 0, complex(rng.uniform(-1, 1), rng.uniform(-1, 1))])
            g.set_vdata(v, 'label', lab)
        else:
            a = g.add_vertex(VT.W_INPUT, q, r)
            v = g.add_vertex(VT.W_OUTPUT, q, r + 1)
            g.add_edge((a, v), ET.W_IO)
            w_in_free.append(a)
        sp.append(v)
    ins = [g.add_vertex(VT.BOUNDARY, i, 0) for i in range(n_in)]
    outs = [g.add_vertex(VT.BOUNDARY, i, 10) for i in range(n_out)]
    free = ins + outs
    rng.shuffle(free)
    for w in list(w_in_free):
        # the single input leg of a W node goes to a boundary, another W's output or a spider
        if free and rng.random() < 0.5:
            g.add_edge((free.pop(), w), ET.SIMPLE)
        else:
            cand = [v for v in sp if not g.connected(v, w)]
            if cand:
                g.add_edge((rng.choice(cand), w), et(0.1))
            else:
                z = g.add_vertex(VT.Z, 0, 0)
                g.add_edge((z, w))
    for b in free:
        g.add_edge((b, rng.choice(sp)), et(0.2))
    m = len(sp)
    order = shuffle(rng, sp)
    for i in range(1, m):
        if rng.random() < 0.06:
            continue
        mixed_edge(g, rng, order[i], order[rng.randrange(i)], et(ph), par)
    if m > 1:
        for _ in range(int(m * (rng.random() * 1.2 if density is None else density))):
            a, b = rng.sample(sp, 2)
            mixed_edge(g, rng, a, b, et(ph), par)
    if loops and backend == 'multigraph' and not auto:
        for v in sp:
            if rng.random() < loops and g.type(v) in (VT.Z, VT.X):
                g.add_edge((v, v), et(0.5))
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    if with_scalar:
        g.scalar = scalar(rng)
    return g


def mixed_edge(g, rng, a, b, et, par):
    if g.connected(a, b):
        if g.backend != 'multigraph' or rng.random() > par:
            return
    g.add_edge((a, b), et)
