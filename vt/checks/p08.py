"""P08: every gate denotes its documented unitary in all of its views (graph, basic gates, adjoint, repositioned, copies)."""
import random
from fractions import Fraction
import numpy as np
from .. import gen, ref, mon, gref, wide
from ..run import Skip
import pyzx as zx
from pyzx.circuit import gates as G
from pyzx.circuit import Circuit

RULE = "gate types x random phases (Fractions and ints, any denominator, negative and beyond 2) x random qubits; non-trivial when the gate is not the identity; distinct by gate"
ASSUMPTIONS = ["gates denote their matrix up to a global phase; FSim is supported for theta = +-pi/2 only", "floating-point comparison at 1e-6"]
VIEWS = ['graph', 'zh', 'rows', 'multigraph', 'basic', 'adjoint', 'reposition', 'copy', 'tcount', 'eq', 'name', 'matrix']
NEED = ["view:" + v for v in VIEWS] + ["gate:" + n for n in gen.ALLG] + ["noneq_pairs", "distinct_equal_pairs", "clifford_zero_t"] + ["far:" + n for n in gen.ALLG]


def same(a, b):
    return ref.close_up_to_phase(a, b)


def on(m, qs, n):
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    return gref.apply(t, m, qs).reshape(2 ** n, 2 ** n)


PAULIS = [np.eye(2), gref.XM, gref.YM, gref.ZM]


def is_clifford(m):
    """Conjugates every generator X_i, Z_i to a Pauli string (up to sign)."""
    k = int(round(np.log2(m.shape[0])))
    for i in range(k):
        for p in (gref.XM, gref.ZM):
            a = np.eye(1)
            for j in range(k):
                a = np.kron(a, p if i == j else np.eye(2))
            b = m @ a @ m.conj().T
            # a Pauli string is a generalised permutation with entries in {+-1, +-i} that has exactly one nonzero trace product
            found = False
            for idx in range(4 ** k):
                q = np.eye(1)
                x = idx
                for j in range(k):
                    q = np.kron(q, PAULIS[x % 4])
                    x //= 4
                if abs(abs(np.trace(q @ b)) - 2 ** k) < 1e-6:
                    found = True
                    break
            if not found:
                return False
    return True


def mkgate(case, n=None):
    r = case.rng
    n = n or r.choice(sorted(gen.ALLG))
    mode = r.choice(['mix', 'wild', 'cliffordT', 'clifford'])
    nq = r.randrange(3, 5)
    k = 1 if n in gen.ONE else 2 if n in gen.TWO else 3
    if n == 'ParityPhase':
        k = r.randrange(1, nq + 1)
    q = r.sample(range(nq), k)
    return n, gen.ALLG[n](r, q, mode), nq


def k_gate(case, n=None):
    r = case.rng
    n, g, nq = mkgate(case, n)
    # integer phases are phases too
    if hasattr(g, 'phase') and n in ('ZPhase', 'XPhase', 'YPhase', 'CRZ', 'CPhase', 'CRX', 'CRY', 'RXX', 'RZZ', 'ParityPhase') and r.random() < .1:
        g.phase = r.randrange(-3, 4)
    sig = "%s %s" % (mon.gate_key(g)[0], mon.gate_key(g)[1])
    key = mon.gate_key(g)
    m, qs = gref.gate_matrix(g)
    u = on(m, qs, nq)
    case.see("gate:" + n)
    what = lambda v: lambda: "%s of %s denotes a different operation" % (v, sig)
    c = Circuit(nq)
    c.add_gate(g)
    case.check(same(u, ref.matrix(c.to_graph())), "graph:" + n, what("the graph"))
    case.see("view:graph")
    case.check(same(u, ref.matrix(c.to_graph(zh=True))), "zh:" + n, what("the ZH graph"))
    case.see("view:zh")
    case.check(same(u, ref.matrix(c.to_graph(compress_rows=False))), "rows:" + n, what("the graph with uncompressed rows"))
    case.see("view:rows")
    mg = c.to_graph(backend='multigraph', zh=r.random() < .5)
    case.check(same(u, ref.matrix(mg)), "multigraph:" + n, what("the multigraph"))
    case.see("view:multigraph")
    bg = g.to_basic_gates()
    if n not in ('FSim',):
        ok = all(type(b).__name__ in ('ZPhase', 'XPhase', 'Z', 'NOT', 'S', 'T', 'SX', 'HAD', 'CNOT', 'CZ') or (len(bg) == 1 and b is g) for b in bg)
        case.check(ok, "basic-kind:" + n, lambda: "expansion of %s contains non-basic gates %s" % (sig, bg))
    case.check(same(u, gref.unitary(bg, nq)), "basic:" + n, what("the expansion into basic gates"))
    case.see("view:basic")
    a = g.to_adjoint()
    case.check(same(u.conj().T, gref.unitary([a], nq)), "adjoint:" + n, what("the adjoint"))
    ca = Circuit(nq)
    ca.add_gate(a)
    case.check(same(u.conj().T, ref.matrix(ca.to_graph(zh=r.random() < .5))), "adjoint-graph:" + n, what("the graph of the adjoint"))
    case.check(same(u.conj().T, gref.unitary(a.to_basic_gates(), nq)), "adjoint-basic:" + n, what("the expansion of the adjoint"))
    case.check(same(u, gref.unitary([a.to_adjoint()], nq)), "adjoint-twice:" + n, what("the adjoint of the adjoint"))
    case.check(type(a) is type(g), "adjoint-type:" + n, lambda: "adjoint of %s is a %s" % (sig, type(a).__name__))
    case.see("view:adjoint")
    big = nq + r.randrange(0, 2)
    mask = r.sample(range(big), nq)
    p = g.reposition(mask)
    v = on(m, tuple(mask[x] for x in qs), big)
    cp = Circuit(big)
    cp.add_gate(p)
    case.check(same(v, gref.unitary([p], big)), "reposition:" + n, what("the repositioned gate (qubits %s)" % mask))
    case.check(same(v, ref.matrix(cp.to_graph(zh=r.random() < .5))), "reposition-graph:" + n, what("the graph of the repositioned gate"))
    case.check(same(v.conj().T, gref.unitary([p.to_adjoint()], big)), "reposition-adjoint:" + n, what("the adjoint of the repositioned gate"))
    case.see("view:reposition")
    d = g.copy()
    case.check(type(d) is type(g) and mon.gate_key(d) == key, "copy:" + n, what("the copy"))
    case.see("view:copy")
    case.check(mon.gate_key(g) == key, "mutated:" + n, lambda: "converting %s changed it to %s" % (sig, mon.gate_key(g)))
    t = g.tcount()
    case.check(isinstance(t, int) and t >= 0, "tcount:" + n, "tcount of %s is %r" % (sig, t))
    if t == 0:
        case.check(is_clifford(m), "tcount-zero:" + n, lambda: "tcount of %s is 0 but it is not a Clifford gate" % sig)
        case.see("clifford_zero_t")
    if n not in ('FSim', 'CCZ', 'Tof', 'CSWAP', 'YPhase', 'ParityPhase', 'RZZ'):
        nt = sum(1 for b in bg if hasattr(b, 'phase') and Fraction(b.phase).denominator > 2)
        case.check(t == nt, "tcount:" + n, lambda: "tcount of %s is %d, its expansion has %d non-Clifford phases" % (sig, t, nt))
    case.see("view:tcount")
    case.see("view:name")
    if r.random() < .3:
        case.check(same(u, c.to_matrix()), "matrix:" + n, what("to_matrix"))
        case.see("view:matrix")
    case.check(g == d, "eq:" + n, lambda: "%s is not equal to its copy" % sig)
    case.see("view:eq")
    if not np.allclose(u, np.eye(2 ** nq)):
        case.note(sig)
    case.sample(sig)


def k_far(case):
    """The same far away: on qubits beyond ten, and parity gates over many qubits."""
    r = case.rng
    n = r.choice(sorted(gen.ALLG) + ['ParityPhase'] * 3)
    nq = r.randrange(11, 15)
    k = 1 if n in gen.ONE else 2 if n in gen.TWO else 3
    if n == 'ParityPhase':
        k = r.randrange(1, nq + 1)
    q = r.sample(range(nq), k)
    g = gen.ALLG[n](r, q, r.choice(['mix', 'wild', 'cliffordT', 'clifford']))
    sig = "%s %s" % (mon.gate_key(g)[0], mon.gate_key(g)[1])
    what = lambda v: lambda: "%s of %s on %d qubits denotes a different operation" % (v, sig, nq)
    ins = wide.vecs(r, nq)
    outs = wide.keep(r, nq)
    u = wide.state([g], ins)
    eq = lambda x, y: ref.close_up_to_phase(x / np.abs(y).max(), y / np.abs(y).max())
    c = Circuit(nq)
    c.add_gate(g)
    for zh in (False, True):
        d = c.to_graph(zh=zh, backend='multigraph' if r.random() < .3 else 'simple')
        case.check(eq(wide.probe(d, ins, outs), wide.close_axes(u, outs)), ("zh:" if zh else "graph:") + n, what("the graph (zh=%s)" % zh))
    case.check(eq(wide.state(g.to_basic_gates(), ins), u), "basic:" + n, what("the expansion into basic gates"))
    a = g.to_adjoint()
    case.check(eq(wide.state([g, a], ins), wide.product(ins)), "adjoint:" + n, what("the adjoint"))
    case.check(eq(wide.state([g] + list(a.to_basic_gates()), ins), wide.product(ins)), "adjoint-basic:" + n, what("the expansion of the adjoint"))
    mask = gen.shuffle(r, range(nq + 3))[:nq]
    p = g.reposition(mask)
    far = wide.vecs(r, nq + 3)
    m, qs = gref.gate_matrix(g)
    case.check(eq(wide.state([p], far), gref.apply(wide.product(far), m, tuple(mask[x] for x in qs))), "reposition:" + n, what("the repositioned gate (qubits %s)" % mask))
    case.see("far:" + n)
    case.note('far', sig)


def k_each(case):
    names = sorted(gen.ALLG)
    k_gate(case, names[case.idx % len(names)])


def k_eq(case):
    """Gates that compare equal are the same operation; equal constructions compare equal."""
    r = case.rng
    n = r.choice(sorted(gen.ALLG))
    if r.random() < .25:
        n2 = r.choice(sorted(gen.ALLG))
    else:
        n2 = n
    nq = 3
    mk = lambda name, rr: gen.ALLG[name](rr, rr.sample(range(nq), nq), rr.choice(['clifford', 'pauli', 'cliffordT']))
    a, b = mk(n, r), mk(n2, r)
    ma, mb = gref.unitary([a], nq), gref.unitary([b], nq)
    e = (a == b)
    if e:
        # fusing the period of the phase is fine; a different operation is not
        case.check(ref.close_up_to_phase(ma, mb), "eq", lambda: "%s == %s but they are different operations" % (mon.gate_key(a), mon.gate_key(b)))
        case.see("distinct_equal_pairs")
    else:
        case.see("noneq_pairs")
        case.check(mon.gate_key(a) != mon.gate_key(b), "neq", lambda: "%s is not equal to an identical gate" % (mon.gate_key(a),))
    case.check((b == a) == e, "eq-symmetric", lambda: "equality of %s and %s is not symmetric" % (mon.gate_key(a), mon.gate_key(b)))
    case.note("%s|%s" % (mon.gate_key(a), mon.gate_key(b)))


def k_split(case):
    """split_phases gives the same rotation in Z/S/T (and Hadamard) gates."""
    r = case.rng
    p = gen.phase(r, r.choice(['mix', 'wild', 'cliffordT', 'clifford']))
    if r.random() < .1:
        p = r.randrange(-4, 5)
    g = r.choice([G.ZPhase, G.XPhase])(r.randrange(3), p)
    u = gref.unitary([g], 3)
    l = g.split_phases()
    case.check(ref.close_up_to_phase(u, gref.unitary(l, 3)), "split", lambda: "split_phases of %s gives %s" % (mon.gate_key(g), l))
    if Fraction(p).denominator in (1, 2, 4) and isinstance(p, Fraction) and 0 <= p < 2:
        case.check(all(type(x).__name__ in ('Z', 'S', 'T', 'NOT', 'HAD') for x in l), "split-kind", lambda: "split_phases of %s gives %s" % (mon.gate_key(g), l))
    c = Circuit(3)
    c.add_gate(g)
    c.add_gate(G.HAD(1))
    case.check(ref.close_up_to_phase(gref.circ(c), gref.circ(c.split_phase_gates())), "split-circuit", lambda: "split_phase_gates of %s" % c.gates)
    case.see("view:split")
    case.note(str(mon.gate_key(g)))


KINDS = {'far': (k_far, 800, 8000), 'each': (k_each, 290, 2900), 'gate': (k_gate, 6000, 60000), 'eq': (k_eq, 20000, 150000), 'split': (k_split, 2000, 10000)}
