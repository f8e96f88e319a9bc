"""P07: phase teleportation changes only phases, preserves the map and does not raise the T-count."""
from fractions import Fraction
from .. import gen, ref, mon, gref, wide
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S
from .p06 import tcount

RULE = "random circuits and ZX-diagrams put through phase teleportation; non-trivial when some phase moved; distinct by diagram"
ASSUMPTIONS = ["simple-graph backend", "floating-point comparison at 1e-7 relative tolerance"]
NEED = ["maps_compared", "phases_moved", "tcount_dropped", "structure_compared", "inputs_unchanged", "signs_flipped", "wide_circuits"]


def run(case, g, big=False, gates=None, nq=None):
    sig = gen.show(g)
    s0 = mon.snapshot(g)
    m0 = ref.matrix(g) if gates is None else None
    ins, outs = (wide.vecs(case.rng, nq), wide.keep(case.rng, nq)) if gates is not None and nq > 7 else (None, None)
    h = S.teleport_reduce(g)
    case.check(h is not g and mon.snapshot(g) == s0, "input-mutated", lambda: "teleport_reduce changed its argument %s" % sig)
    case.see("inputs_unchanged")
    a, b = mon.snapshot(g), mon.snapshot(h)
    # the copy may renumber the vertices, in order
    va, vb = sorted(a[0]), sorted(b[0])
    case.check(len(va) == len(vb), "structure", "different number of vertices")
    tr = dict(zip(va, vb))
    case.check([(a[0][v][0], a[0][v][2:5]) for v in va] == [(b[0][tr[v]][0], b[0][tr[v]][2:5]) for v in va], "structure", lambda: "vertex types or positions changed: %s -> %s" % (sig, gen.show(h)))
    ea = sorted(tuple(sorted((tr[s], tr[t]))) + (k,) for s, t, k in a[1])
    case.check(ea == b[1], "structure", lambda: "edges changed: %s -> %s" % (sig, gen.show(h)))
    case.check(tuple(tr[v] for v in a[2]) == b[2] and tuple(tr[v] for v in a[3]) == b[3], "structure", "inputs/outputs changed")
    case.see("structure_compared")
    if m0 is None:
        if ins is None:
            u = gref.unitary(gates, nq)
            after = ref.matrix(h)
        else:
            u = wide.close_axes(wide.state(gates, ins), outs)
            after = wide.probe(h, ins, outs)
            case.see("wide_circuits")
        case.see("maps_compared")
        case.check(ref.close_up_to_scalar(u, after)[0], "map:teleport", lambda: "teleport_reduce changed the circuit's unitary: " + ref.describe(u, after))
    else:
        mon.preserved(case, "teleport_reduce", m0, h, exact=False)
    t0, t1 = tcount(g), tcount(h)
    case.check(t1 <= t0, "tcount", lambda: "teleport_reduce raised the T-count from %d to %d on %s" % (t0, t1, sig))
    f = g.copy()
    S.full_reduce(f)
    case.check(t1 <= t0 and tcount(f) <= t0, "tcount", "")
    moved = [v for v in va if a[0][v][1] != b[0][tr[v]][1]]
    if moved:
        case.see("phases_moved")
        case.note(sig)
        case.sample(sig)
    if any((a[0][v][1] + b[0][tr[v]][1]) % 2 == 0 and a[0][v][1] % 1 for v in moved):
        case.see("signs_flipped")
    if t1 < t0:
        case.see("tcount_dropped")
    return h


def k_circ(case):
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(1, 5), ngates=r.randrange(0, 60), names=r.choice([gen.BASIC, gen.CLIFFTG, ['T', 'CNOT', 'NOT', 'ZPhase', 'HAD', 'CZ']]), mode=r.choice(['cliffordT', 'mix', 'wild']))
    run(case, c.to_graph())


def k_tdense(case):
    """CNOT + T circuits with NOTs: many fusing phases of both signs."""
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(1, 5), ngates=r.randrange(10, 80), names=['T', 'T', 'T', 'CNOT', 'CNOT', 'NOT', 'HAD' if r.random() < .5 else 'CZ', 'ZPhase', 'XPhase'], mode=r.choice(['cliffordT', 'wild']))
    run(case, c.to_graph())


def k_graph(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(1, 13), phases=r.choice(['mix', 'cliffordT', 'wild'])) if r.random() < .5 else gen.graphlike(r, n=r.randrange(1, 12), phases=r.choice(['mix', 'cliffordT', 'wild']), gadgets=r.randrange(0, 4))
    run(case, g)


def k_big(case):
    r = case.rng
    nq = r.randrange(3, 7)
    c = gen.circuit(r, nq=nq, ngates=r.randrange(60, 200), names=gen.CLIFFTG)
    run(case, c.to_graph(), gates=c.gates, nq=nq)


def k_twice(case):
    """Teleporting an already teleported diagram."""
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(1, 4), ngates=r.randrange(5, 50), names=gen.CLIFFTG)
    h = run(case, c.to_graph())
    run(case, h)


def k_loop(case):
    """The circuit comes back from the teleported diagram."""
    r = case.rng
    nq = r.randrange(1, 5)
    c = gen.circuit(r, nq=nq, ngates=r.randrange(0, 60), names=gen.CLIFFTG)
    h = run(case, c.to_graph())
    d = zx.Circuit.from_graph(h)
    u, w = gref.circ(c), gref.circ(d)
    case.check(ref.close_up_to_scalar(u, w)[0], "map:circuit", lambda: "circuit read back after teleportation differs: " + gen.show_circ(c))
    case.see("circuits_read_back")


def k_wide(case):
    """Many qubits."""
    r = case.rng
    n = r.randrange(8, 14)
    c = gen.circuit(r, nq=n, ngates=r.randrange(n, 6 * n), names=r.choice([gen.CLIFFTG, ['T', 'T', 'CNOT', 'CNOT', 'NOT', 'HAD'], gen.BASIC]), mode=r.choice(['cliffordT', 'mix', 'wild']))
    h = run(case, c.to_graph(), gates=c.gates, nq=n)
    if r.random() < .4:
        d = zx.Circuit.from_graph(h)
        ins = wide.vecs(r, n)
        case.check(ref.close_up_to_scalar(wide.state(c.gates, ins), wide.state(d.gates, ins))[0], "map:circuit", lambda: "circuit read back after teleportation differs: " + gen.show_circ(c))


KINDS = {'circ': (k_circ, 3000, 25000), 'tdense': (k_tdense, 3000, 25000), 'graph': (k_graph, 4000, 40000), 'big': (k_big, 120, 1000), 'twice': (k_twice, 800, 6000), 'loop': (k_loop, 800, 6000), 'wide': (k_wide, 300, 3000)}
