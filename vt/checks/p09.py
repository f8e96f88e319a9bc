"""P09: circuit algebra, conversion to and from graphs, statistics and equality checking."""
from fractions import Fraction
import itertools
import numpy as np
from .. import gen, ref, mon, gref, wide
from ..run import Skip
import pyzx as zx
from pyzx.circuit import gates as G
from pyzx.circuit import Circuit

RULE = "random circuits over all gate types x circuit operation; non-trivial when the circuit has at least two gates; distinct by (operation, circuit)"
ASSUMPTIONS = ["circuits denote their matrix up to a global phase", "floating-point comparison at 1e-6"]
OPS = ['to_graph', 'to_matrix', 'basic', 'adjoint', 'tensor', 'tensor_gate', 'add_circuit', 'mask', 'iadd', 'add', 'add_gate_obj', 'prepend', 'rowcol', 'names', 'split', 'copy',
       'from_graph', 'from_graph_nosplit', 'stats', 'depth', 'bits', 'ancilla', 'ancilla_reused', 'reading_xcx', 'gate_add', 'gate_matmul', 'self_add']
NEED = ["op:" + o for o in OPS] + ["verify_true", "verify_false", "verify_swap_true", "verify_self", "arguments_unchanged", "wide"]
ALL = sorted(gen.ALLG)
READABLE = ['ZPhase', 'XPhase', 'Z', 'NOT', 'S', 'T', 'HAD', 'CNOT', 'CZ', 'SX', 'YPhase', 'Y', 'CY', 'CSX', 'CHAD', 'CRX', 'CRY', 'CRZ', 'CPhase', 'RXX', 'RZZ', 'CU3', 'CU', 'U2', 'U3',
            'ParityPhase', 'CCZ', 'Tof', 'CSWAP', 'SWAP']


def same(a, b):
    return ref.close_up_to_phase(a, b)


def mk(case, nq=None, ngates=None, names=None, maxq=4):
    r = case.rng
    return gen.circuit(r, nq=nq if nq is not None else r.randrange(1, maxq + 1), ngates=ngates if ngates is not None else r.randrange(0, 14), names=names or ALL, mode=r.choice(['mix', 'cliffordT', 'wild']))


class keep:
    """The circuits given are not changed inside the block."""

    def __init__(self, case, what, *cs):
        self.case, self.what, self.cs = case, what, cs

    def __enter__(self):
        self.s = [mon.circ_snapshot(c) for c in self.cs]

    def __exit__(self, t, v, tb):
        if t is None:
            for c, s in zip(self.cs, self.s):
                self.case.check(mon.circ_snapshot(c) == s, "mutated:" + self.what, lambda: "%s changed its argument" % self.what)
            self.case.see("arguments_unchanged")


def k_conv(case):
    r = case.rng
    c = mk(case)
    u = gref.circ(c)
    sig = gen.show_circ(c)
    for zh, comp, be in ((False, True, None), (True, True, None), (r.random() < .5, False, r.choice([None, 'simple', 'multigraph'])), (r.random() < .5, True, 'multigraph')):
        with keep(case, "to_graph", c):
            g = c.to_graph(zh=zh, compress_rows=comp, backend=be)
        s = mon.structure(g)
        case.check(s is None, "to_graph:structure", lambda: "to_graph of %s: %s" % (sig, s))
        case.check(len(g.inputs()) == c.qubits == len(g.outputs()), "to_graph:io", "number of inputs/outputs")
        case.check([g.qubit(v) for v in g.inputs()] == list(range(c.qubits)) == [g.qubit(v) for v in g.outputs()], "to_graph:qubits", "inputs and outputs are not on their qubit")
        case.check(same(u, ref.matrix(g)), "to_graph", lambda: "to_graph(zh=%s,compress_rows=%s,backend=%s) of %s: %s" % (zh, comp, be, sig, ref.describe(u, ref.matrix(g))))
        if be != 'multigraph' and r.random() < .3:
            case.check(same(u, g.to_matrix()), "graph.to_matrix", lambda: "to_matrix of the graph of %s" % sig)
    case.see("op:to_graph")
    if c.qubits <= 4 and r.random() < .3:
        with keep(case, "to_matrix", c):
            case.check(same(u, c.to_matrix()), "to_matrix", lambda: "to_matrix of %s" % sig)
            t = c.to_tensor()
            case.check(t.shape == (2,) * (2 * c.qubits), "to_tensor", "shape %s" % (t.shape,))
        case.see("op:to_matrix")
    with keep(case, "to_basic_gates", c):
        b = c.to_basic_gates()
    case.check(b.qubits == c.qubits and same(u, gref.circ(b)), "basic", lambda: "to_basic_gates of %s" % sig)
    case.see("op:basic")
    with keep(case, "split_phase_gates", c):
        b = c.split_phase_gates()
    case.check(b.qubits == c.qubits and same(u, gref.circ(b)), "split", lambda: "split_phase_gates of %s" % sig)
    case.see("op:split")
    with keep(case, "adjoint", c):
        a = c.adjoint()
    case.check(a.qubits == c.qubits and same(u.conj().T, gref.circ(a)), "adjoint", lambda: "adjoint of %s" % sig)
    case.check(same(u.conj().T, ref.matrix(a.to_graph())), "adjoint:graph", lambda: "graph of the adjoint of %s" % sig)
    case.see("op:adjoint")
    s0 = mon.circ_snapshot(c)
    d = c.copy()
    case.check(mon.circ_snapshot(d) == s0, "copy", lambda: "copy of %s differs" % sig)
    for x in d.gates:
        if hasattr(x, 'phase'):
            x.phase = x.phase + Fraction(1, 3)
        if hasattr(x, 'target'):
            x.target = 77
    d.gates.append(G.HAD(0))
    case.check(mon.circ_snapshot(c) == s0, "copy:shared", lambda: "changing a copy changed the original %s" % sig)
    case.see("op:copy")
    case.check(len(c) == len(c.gates) and list(c) == c.gates, "len", "len/iter")
    if len(c.gates) > 1:
        case.note(sig, 'conv')
    case.sample(sig)


def k_alg(case):
    r = case.rng
    a = mk(case, ngates=r.randrange(0, 8), maxq=3)
    b = mk(case, ngates=r.randrange(0, 8), maxq=2)
    ua, ub = gref.circ(a), gref.circ(b)
    sig = gen.show_circ(a) + " | " + gen.show_circ(b)
    if a.gates and b.gates:
        case.note(sig, 'alg')
    with keep(case, "tensor", a, b):
        t = a.tensor(b) if r.random() < .5 else a @ b
    case.check(t.qubits == a.qubits + b.qubits and same(np.kron(ua, ub), gref.circ(t)), "tensor", lambda: "tensor of %s" % sig)
    case.check(same(np.kron(ua, ub), ref.matrix(t.to_graph())), "tensor:graph", lambda: "graph of the tensor of %s" % sig)
    case.see("op:tensor")
    x = gen.gate(r, 3, ALL, 'mix')
    n = max(gref.gate_matrix(x)[1]) + 1
    with keep(case, "tensor_gate", a):
        t = a @ x
    case.check(t.qubits == a.qubits + n and same(np.kron(ua, gref.unitary([x], n)), gref.circ(t)), "tensor:gate", lambda: "tensor of %s with a gate %s" % (gen.show_circ(a), mon.gate_key(x)))
    case.see("op:tensor_gate")
    # composition
    c = mk(case, nq=a.qubits, ngates=r.randrange(0, 8))
    uc = gref.circ(c)
    with keep(case, "add", a, c):
        d = a + c
    case.check(d.qubits == a.qubits and same(uc @ ua, gref.circ(d)), "add", lambda: "a + c for %s, %s" % (gen.show_circ(a), gen.show_circ(c)))
    case.see("op:add")
    d = a.copy()
    with keep(case, "iadd", c):
        d += c
    case.check(same(uc @ ua, gref.circ(d)), "iadd", lambda: "a += c for %s, %s" % (gen.show_circ(a), gen.show_circ(c)))
    for y in d.gates:
        if hasattr(y, 'phase'):
            y.phase = Fraction(1, 77)
    case.check(same(uc, gref.circ(c)) and same(ua, gref.circ(a)), "add:shared", "composed circuits share gates with their parts")
    case.see("op:iadd")
    d = a.copy()
    d.add_circuit(c)
    case.check(same(uc @ ua, gref.circ(d)), "add_circuit", lambda: "add_circuit")
    case.see("op:add_circuit")
    d = a.copy()
    d += d
    case.check(same(ua @ ua, gref.circ(d)), "self_add", "a += a")
    case.see("op:self_add")
    # masks
    big = mk(case, nq=b.qubits + r.randrange(0, 3), ngates=r.randrange(0, 6))
    mask = r.sample(range(big.qubits), b.qubits)
    ubig = gref.circ(big)
    t = ubig.reshape((2,) * big.qubits + (2 ** big.qubits,))
    want = gref.apply(t, ub, tuple(mask)).reshape(ubig.shape)
    d = big.copy()
    with keep(case, "add_circuit", b):
        d.add_circuit(b, mask)
    case.check(d.qubits == big.qubits and same(want, gref.circ(d)), "mask", lambda: "add_circuit(%s, mask=%s)" % (gen.show_circ(b), mask))
    case.check(same(want, ref.matrix(d.to_graph())), "mask:graph", lambda: "graph after add_circuit(%s, mask=%s)" % (gen.show_circ(b), mask))
    case.see("op:mask")
    # gates
    y = gen.gate(r, a.qubits, ALL, 'mix')
    uy = gref.unitary([y], a.qubits)
    d = a + y
    case.check(same(uy @ ua, gref.circ(d)), "add:gate", lambda: "circuit + gate")
    d = a.copy()
    d.add_gate(y)
    case.check(same(uy @ ua, gref.circ(d)), "add_gate", lambda: "add_gate")
    case.see("op:add_gate_obj")
    d = a.copy()
    d.prepend_gate(y)
    case.check(same(ua @ uy, gref.circ(d)), "prepend_gate", lambda: "prepend_gate")
    case.see("op:prepend")
    if a.qubits > 1:
        i, j = r.sample(range(a.qubits), 2)
        d = a.copy()
        d.row_add(i, j)
        case.check(same(gref.unitary([G.CNOT(i, j)], a.qubits) @ ua, gref.circ(d)), "row_add", "row_add")
        d = a.copy()
        d.col_add(i, j)
        case.check(same(ua @ gref.unitary([G.CNOT(j, i)], a.qubits), gref.circ(d)), "col_add", "col_add")
        case.see("op:rowcol")
    z = gen.gate(r, 3, ALL, 'mix')
    nx, nz = max(gref.gate_matrix(x)[1]) + 1, max(gref.gate_matrix(z)[1]) + 1
    t = x @ z
    case.check(t.qubits == nx + nz and same(np.kron(gref.unitary([x], nx), gref.unitary([z], nz)), gref.circ(t)), "gate_matmul", lambda: "%s @ %s" % (mon.gate_key(x), mon.gate_key(z)))
    case.see("op:gate_matmul")
    t = x + z
    nn = max(nx, nz)
    case.check(t.qubits == nn and same(gref.unitary([x, z], nn), gref.circ(t)), "gate_add", lambda: "%s + %s" % (mon.gate_key(x), mon.gate_key(z)))
    case.see("op:gate_add")


# names accepted by add_gate, with what they must build
NAMED = [('XPhase', G.XPhase), ('NOT', G.NOT), ('SX', G.SX), ('CSX', G.CSX), ('YPhase', G.YPhase), ('Y', G.Y), ('CY', G.CY), ('ZPhase', G.ZPhase), ('CPhase', G.CPhase), ('CP', G.CPhase), ('Z', G.Z), ('S', G.S),
         ('T', G.T), ('CNOT', G.CNOT), ('CZ', G.CZ), ('ParityPhase', G.ParityPhase), ('XCX', G.XCX), ('SWAP', G.SWAP), ('CSWAP', G.CSWAP), ('CRZ', G.CRZ), ('HAD', G.HAD), ('H', G.HAD), ('CHAD', G.CHAD),
         ('TOF', G.Tofolli), ('CCZ', G.CCZ), ('U2', G.U2), ('U3', G.U3), ('U', G.U3), ('CU3', G.CU3), ('CU', G.CU), ('CRX', G.CRX), ('CRY', G.CRY), ('RZZ', G.RZZ), ('RXX', G.RXX), ('FSim', G.FSim)]


def k_names(case):
    """Gates added by name are the gates of that name; add_gates adds a sequence."""
    r = case.rng
    name, cls = r.choice(NAMED)
    key = {v: k for k, v in (('Tof', G.Tofolli),)}.get(cls, cls.__name__)
    g = gen.ALLG[key](r, r.sample(range(4), 4), r.choice(['mix', 'wild']))
    kw = dict(vars(g))
    kw.pop('phases', None)
    if key == 'ParityPhase':
        args, kw = (g.phase,) + tuple(g.targets), {}
    else:
        kw.pop('targets', None)
        if key in ('Z', 'S', 'T', 'NOT', 'SX', 'Y'):
            kw.pop('phase', None)
        args = ()
    c = Circuit(4)
    pre = r.random() < .4
    if pre:
        c.add_gate("H", 0)
        c.prepend_gate(name, *args, **kw)
        want = gref.unitary([g, G.HAD(0)], 4)
    else:
        c.add_gate(name, *args, **kw)
        want = gref.unitary([g], 4)
    case.check(same(want, gref.circ(c)), "names:" + name, lambda: "add_gate(%s, %s) built %s" % (name, kw or args, mon.circ_snapshot(c)))
    c = Circuit(4)
    seq = [r.choice(['S', 'T', 'H', 'Z', 'NOT', 'Y', 'HAD', 'SX']) for _ in range(r.randrange(1, 6))]
    q = r.randrange(4)
    c.add_gates(" ".join(seq), q)
    mk1 = {'S': G.S, 'T': G.T, 'H': G.HAD, 'HAD': G.HAD, 'Z': G.Z, 'NOT': G.NOT, 'Y': G.Y, 'SX': G.SX}
    case.check(same(gref.unitary([mk1[s](q) for s in seq], 4), gref.circ(c)), "add_gates", lambda: "add_gates(%s)" % seq)
    case.see("op:names")
    case.note(name, str(kw), str(args))


def k_read(case):
    """Reading a circuit graph back."""
    r = case.rng
    c = mk(case, names=READABLE, ngates=r.randrange(0, 12))
    comp = r.random() < .7
    if not comp and len(c.gates) > 8:
        c.gates = c.gates[:8]
    u = gref.circ(c)
    sig = gen.show_circ(c)
    g = c.to_graph(compress_rows=comp, backend=r.choice([None, None, 'simple']))
    s0 = mon.snapshot(g)
    sp = r.random() < .5
    d = Circuit.from_graph(g, split_phases=sp)
    case.check(mon.snapshot(g) == s0, "from_graph:mutated", "from_graph changed the graph")
    case.check(d.qubits == c.qubits and same(u, gref.circ(d)), "from_graph", lambda: "from_graph(to_graph(c), split_phases=%s) of %s is %s" % (sp, sig, gen.show_circ(d)))
    case.see("op:from_graph" if sp else "op:from_graph_nosplit")
    if len(c.gates) > 1:
        case.note(sig, 'read', comp, sp)


def k_xcx(case):
    """Graphs with vertical Hadamard edges between X spiders (XCX gates) as well as all other verticals."""
    r = case.rng
    nq = r.randrange(2, 5)
    gates = [gen.gate(r, nq, ['XCX', 'XCX', 'CZ', 'CNOT', 'HAD', 'ZPhase', 'XPhase', 'T', 'S', 'FSim' if False else 'NOT'], 'mix') for _ in range(r.randrange(1, 12))]
    c = Circuit(nq)
    c.gates = gates
    g = c.to_graph(zh=True, compress_rows=r.random() < .6)
    d = Circuit.from_graph(g, split_phases=r.random() < .5)
    case.check(same(gref.circ(c), gref.circ(d)), "from_graph:xcx", lambda: "from_graph of the graph of %s is %s" % (gen.show_circ(c), gen.show_circ(d)))
    case.see("op:reading_xcx")
    case.note(gen.show_circ(c), 'xcx')


def k_stats(case):
    r = case.rng
    names = [x for x in ALL if x != 'FSim']
    c = mk(case, names=r.choice([names, gen.CLIFFTG, gen.BASIC]), ngates=r.randrange(0, 25))
    sig = gen.show_circ(c)
    with keep(case, "stats", c):
        d = c.stats_dict(depth=r.random() < .8)
        st = c.stats(depth=r.random() < .5)
        tc, tq = c.tcount(), c.twoqubitcount()
    case.check(tc == sum(g.tcount() for g in c.gates) == d['tcount'], "tcount", lambda: "tcount %s/%s of %s" % (tc, d['tcount'], sig))
    case.check(d['gates'] == len(c.gates) and d['qubits'] == c.qubits, "stats:gates", lambda: "%s of %s" % (d, sig))
    cls = [type(g).__name__ for g in c.gates]
    case.check(d['cnot'] == cls.count('CNOT') and d['had'] == cls.count('HAD'), "stats:cnot", lambda: "%s of %s" % (d, sig))
    case.check(str(d['tcount']) + " is the T-count" in st and "%d gates" % len(c.gates) in st, "stats:text", lambda: st)
    basic = [b for g in c.gates for b in g.to_basic_gates()]
    two = sum(1 for b in basic if len(gref.gate_matrix(b)[1]) == 2)
    case.check(tq == two, "twoqubitcount", lambda: "twoqubitcount %d of %s, its basic gates have %d" % (tq, sig, two))
    d2 = c.stats_dict(depth=True)
    when = [0] * c.qubits
    for b in basic:
        qs = gref.gate_matrix(b)[1]
        t = max(when[q] for q in qs) + 1
        for q in qs:
            when[q] = t
    case.check(d2['depth'] == max(when), "depth", lambda: "depth %d of %s, critical path is %d" % (d2['depth'], sig, max(when)))
    when = [0] * c.qubits
    for b in basic:
        l = [G.HAD(b.target), G.CNOT(b.control, b.target), G.HAD(b.target)] if type(b).__name__ == 'CZ' else [b]
        for x in l:
            qs = gref.gate_matrix(x)[1]
            t = max(when[q] for q in qs) + 1
            for q in qs:
                when[q] = t
    case.check(d2['depth_cz'] == max(when), "depth_cz", lambda: "depth without CZ %d of %s, critical path is %d" % (d2['depth_cz'], sig, max(when)))
    cb = Circuit(c.qubits)
    cb.gates = basic
    case.check(cb.depth() == d2['depth'], "depth:method", "depth() differs from stats")
    when = [0] * c.qubits
    for b in c.gates:
        qs = gref.gate_matrix(b)[1]
        t = max(when[q] for q in qs) + 1
        for q in qs:
            when[q] = t
    case.check(c.depth() == max(when), "depth:gates", lambda: "depth %d of %s, counting every gate as a step its critical path is %d" % (c.depth(), sig, max(when)))
    if r.random() < .01:
        e = Circuit(0)
        case.check(e.depth() == 0 and e.stats_dict(depth=True)['depth'] == 0, "depth:empty", "depth of a circuit without qubits")
    case.see("op:stats")
    case.see("op:depth")
    case.note(sig, 'stats')


def k_bits(case):
    """Operations keep track of the number of classical bits, and map them."""
    r = case.rng
    a = mk(case, ngates=r.randrange(0, 5), maxq=3)
    b = mk(case, ngates=r.randrange(0, 5), maxq=3)
    for c in (a, b):
        c.bits = r.randrange(1, 4)
        for _ in range(r.randrange(0, 3)):
            c.add_gate("Measurement", r.randrange(c.qubits), r.randrange(c.bits))
    t = a.tensor(b)
    case.check((t.qubits, t.bits) == (a.qubits + b.qubits, a.bits + b.bits), "bits:tensor", lambda: "tensor of circuits with %d and %d bits has %d" % (a.bits, b.bits, t.bits))
    mb = [g for g in t.gates if type(g).__name__ == 'Measurement']
    want = [(g.target, g.result_bit) for g in a.gates if type(g).__name__ == 'Measurement'] + [(g.target + a.qubits, g.result_bit + a.bits) for g in b.gates if type(g).__name__ == 'Measurement']
    case.check([(g.target, g.result_bit) for g in mb] == want, "bits:tensor-map", lambda: "measurements of the tensor are %s, expected %s" % ([(g.target, g.result_bit) for g in mb], want))
    for what, c in (('copy', a.copy()), ('basic', a.to_basic_gates()), ('split', a.split_phase_gates())):
        case.check((c.qubits, c.bits) == (a.qubits, a.bits), "bits:" + what, lambda: "%s lost the bits" % what)
    big = Circuit(a.qubits + 2, bit_amount=a.bits + 2)
    mask = r.sample(range(big.qubits), a.qubits)
    bm = r.sample(range(big.bits), a.bits)
    big.add_circuit(a, mask, bm)
    got = [(g.target, g.result_bit) for g in big.gates if type(g).__name__ == 'Measurement']
    case.check(got == [(mask[g.target], bm[g.result_bit]) for g in a.gates if type(g).__name__ == 'Measurement'], "bits:mask", lambda: "bit mask not applied: %s" % got)
    g = a.to_graph()
    case.check(len(g.inputs()) == a.qubits + a.bits == len(g.outputs()), "bits:graph", "number of wires of the graph")
    case.see("op:bits")
    case.note(gen.show_circ(a), gen.show_circ(b), 'bits')


def k_anc(case):
    """Ancillas: a fresh label starts in a phase-free Z spider state and is post-selected on one."""
    r = case.rng
    nq = r.randrange(1, 4)
    c = Circuit(nq)
    live = list(range(nq))
    fresh = nq
    plus = np.array([1, 1], dtype=complex)
    t = np.eye(2 ** nq, dtype=complex).reshape((2,) * nq + (2 ** nq,))
    anc, gone = [], []
    for _ in range(r.randrange(1, 14)):
        x = r.random()
        if x < .25 and len(live) < 6:
            l = fresh
            if gone and r.random() < .6:    # a label is free again
                l = gone.pop(r.randrange(len(gone)))
                case.see("op:ancilla_reused")
            else:
                fresh += 1
            c.add_gate("InitAncilla", l)
            t = np.moveaxis(np.tensordot(t, plus, axes=0), -1, len(live))
            live.append(l)
            anc.append(l)
        elif x < .4 and anc:
            l = anc.pop(r.randrange(len(anc)))
            gone.append(l)
            c.add_gate("PostSelect", l)
            t = np.tensordot(t, plus, axes=([live.index(l)], [0]))
            live.remove(l)
        else:
            g = gen.gate(r, len(live), ['ZPhase', 'XPhase', 'HAD', 'CNOT', 'CZ', 'T', 'SWAP', 'CPhase'], 'mix')
            m, qs = gref.gate_matrix(g)
            c.add_gate(g.reposition(live))
            t = gref.apply(t, m, qs)
    for l in anc:
        c.add_gate("PostSelect", l)
        t = np.tensordot(t, plus, axes=([live.index(l)], [0]))
        live.remove(l)
    want = t.reshape(2 ** nq, 2 ** nq)
    g = c.to_graph(compress_rows=r.random() < .6)
    got = ref.matrix(g)
    case.check(want.shape == got.shape and same(want, got), "ancilla", lambda: "graph of the ancilla circuit %s: %s" % ([mon.gate_key(x) for x in c.gates], ref.describe(want, got)))
    case.see("op:ancilla")
    case.note(str([mon.gate_key(x) for x in c.gates]))


def k_verify(case):
    """verify_equality only accepts equal circuits; up_to_swaps only ones equal up to a permutation of wires."""
    r = case.rng
    names = r.choice([gen.CLIFFTG, gen.BASIC, gen.CLIFF, [x for x in ALL if x not in ('FSim',)]])
    c = mk(case, names=names, maxq=3)
    d = c.copy()
    x = r.random()
    if x < .3:
        pass
    elif x < .6 and d.gates:
        i = r.randrange(len(d.gates))
        if r.random() < .5:
            del d.gates[i]
        else:
            d.gates.insert(i, gen.gate(r, c.qubits, names, 'cliffordT'))
    elif x < .8 and c.qubits > 1:
        i, j = r.sample(range(c.qubits), 2)
        d.gates += [G.SWAP(i, j)] if r.random() < .5 else [G.CNOT(i, j), G.CNOT(j, i), G.CNOT(i, j)]
    elif len(d.gates) > 1:
        i = r.randrange(len(d.gates) - 1)
        d.gates[i], d.gates[i + 1] = d.gates[i + 1], d.gates[i]
    uc, ud = gref.circ(c), gref.circ(d)
    eq = same(uc, ud)
    with keep(case, "verify_equality", c, d):
        v = c.verify_equality(d)
        w = c.verify_equality(d, up_to_swaps=True)
    sig = gen.show_circ(c) + " vs " + gen.show_circ(d)
    if v:
        case.check(eq, "verify", lambda: "verify_equality accepts different circuits %s" % sig)
        case.see("verify_true")
        case.check(bool(w), "verify:swaps", "equal circuits are rejected up to swaps")
    else:
        case.see("verify_false")
    if w and not eq:
        n = c.qubits
        t = ud.reshape((2,) * n + (2 ** n,))
        ok = any(same(uc, np.transpose(t, list(p) + [n]).reshape(2 ** n, 2 ** n)) for p in itertools.permutations(range(n)))
        case.check(ok, "verify:swaps", lambda: "verify_equality(up_to_swaps) accepts %s" % sig)
        case.see("verify_swap_true")
    if mon.circ_snapshot(c)[3] == mon.circ_snapshot(d)[3] and names is not None and all(type(g).__name__ in gen.CLIFFTG for g in c.gates):
        case.see("verify_self")
        case.check(bool(v), "verify:self", lambda: "verify_equality rejects a Clifford+T circuit compared with itself: %s" % sig)
    case.note(sig, 'verify')


def k_wide(case):
    """Circuits on many qubits, compared on random product vectors."""
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(8, 14), ngates=r.randrange(5, 40), names=r.choice([READABLE, gen.BASIC, gen.CLIFFTG, gen.BASIC]), mode=r.choice(['mix', 'cliffordT', 'wild']))
    n = c.qubits
    sig = gen.show_circ(c)
    ins = wide.vecs(r, n)
    outs = wide.keep(r, n)
    want = wide.state(c.gates, ins)
    flat = wide.close_axes(want, outs)
    ev = lambda d: wide.state(d.gates, ins)
    g = c.to_graph(compress_rows=r.random() < .7)
    case.check(len(g.inputs()) == n == len(g.outputs()) and [g.qubit(v) for v in g.inputs()] == list(range(n)) == [g.qubit(v) for v in g.outputs()], "to_graph:io", lambda: "inputs and outputs of the graph of %s" % sig)
    case.check(same(flat, wide.probe(g, ins, outs)), "to_graph", lambda: "to_graph of %s" % sig)
    d = Circuit.from_graph(g, split_phases=r.random() < .5)
    case.check(d.qubits == n and same(want, ev(d)), "from_graph", lambda: "from_graph(to_graph(c)) of %s is %s" % (sig, gen.show_circ(d)))
    b = c.to_basic_gates()
    case.check(b.qubits == n and same(want, ev(b)), "basic", lambda: "to_basic_gates of %s" % sig)
    b = c.split_phase_gates()
    case.check(b.qubits == n and same(want, ev(b)), "split", lambda: "split_phase_gates of %s" % sig)
    a = c.adjoint()
    t = want
    for x in a.gates:
        m, qs = gref.gate_matrix(x)
        t = gref.apply(t, m, qs)
    case.check(a.qubits == n and same(wide.product(ins), t), "adjoint", lambda: "adjoint of %s does not undo it" % sig)
    k = r.randrange(1, 4)
    e = gen.circuit(r, nq=k, ngates=r.randrange(6), names=READABLE, mode='mix')
    v2 = wide.vecs(r, k)
    for p, q, vv in ((c, e, ins + v2), (e, c, v2 + ins)):
        t = p.tensor(q)
        w = np.multiply.outer(wide.state(p.gates, vv[:p.qubits]), wide.state(q.gates, vv[p.qubits:]))
        case.check(t.qubits == n + k and same(w, wide.state(t.gates, vv)), "tensor", lambda: "tensor of %s and %s" % (gen.show_circ(p), gen.show_circ(q)))
    d = c.copy()
    mask = r.sample(range(n), k)
    if r.random() < .5:
        d.add_circuit(e, mask)
    else:
        e = gen.circuit(r, nq=n, ngates=r.randrange(12), names=READABLE, mode='mix')
        mask = list(range(n))
        if r.random() < .5:
            d += e
        else:
            d.add_circuit(e)
    t = want
    for x in e.gates:
        m, qs = gref.gate_matrix(x)
        t = gref.apply(t, m, [mask[i] for i in qs])
    case.check(d.qubits == n and same(t, ev(d)), "add_circuit", lambda: "adding %s on the qubits %s to %s" % (gen.show_circ(e), mask, sig))
    case.see("wide")
    case.note(sig, 'wide')


KINDS = {'conv': (k_conv, 3500, 40000), 'alg': (k_alg, 2500, 30000), 'names': (k_names, 3000, 20000), 'read': (k_read, 4000, 40000), 'xcx': (k_xcx, 2000, 15000), 'stats': (k_stats, 3000, 25000),
         'bits': (k_bits, 1000, 8000), 'anc': (k_anc, 2500, 20000), 'verify': (k_verify, 2500, 20000), 'wide': (k_wide, 500, 5000)}
