"""P14: phase-polynomial routing."""
from fractions import Fraction
import contextlib
import io
import numpy as np
from .. import gen, gref, ref
from ..run import Skip
from pyzx.linalg import Mat2
from pyzx.circuit import Circuit
from pyzx.circuit import gates as G
from pyzx import generate as GEN
from pyzx.routing import ElimMode, RoutingMethod, RootHeuristic, SplitHeuristic, route_phase_poly, Parity, create_architecture
from pyzx.routing.phase_poly import PhasePoly, mat22partition, partition2mat2, inverse_hack
from . import p13

RULE = "random CNOT + Z-phase circuits x architectures x routing methods x heuristics; non-trivial when the circuit has at least two phases on different parities and two CNOTs; distinct by (circuit, coupling graph, method)"
ASSUMPTIONS = ["the coupling graph is connected and has as many qubits as the circuit", "circuits consist of CNOTs and Z rotations, as documented; other gates are refused"]
METH = [str(m) for m in RoutingMethod]
NEED = ["method:" + m for m in METH] + ["root:" + str(h) for h in RootHeuristic] + ["split:" + str(h) for h in SplitHeuristic] + [
    "poly", "poly_placed", "refused", "gray_synth", "matroid", "ariannes", "rec_gray", "genetic", "gauss_mode", "unchanged", "cancelled", "generator", "gadgets", "unitary", "partition", "from_poly", "no_architecture"]


def circ(r, n, size=None):
    c = Circuit(n)
    k = size if size is not None else r.choice([0, 2, 6, 12, 25, 50])
    p = r.choice([.3, .5, .7])
    den = r.choice([4, 4, 2, 8, 3])
    while len(c.gates) < k:
        if n > 1 and r.random() < p:
            c.gates.append(G.CNOT(*r.sample(range(n), 2)))
        else:
            t = r.randrange(n)
            x = r.random()
            c.gates.append(G.T(t, adjoint=r.random() < .5) if x < .2 else G.S(t, adjoint=r.random() < .5) if x < .3 else G.Z(t) if x < .35 else G.ZPhase(t, Fraction(r.randrange(-2 * den, 2 * den + 1), den)))
    return c


def poly(c, rows=None):
    """Phase polynomial by following the parities: {bit mask: phase mod 2} and the output masks."""
    rows = rows or [1 << i for i in range(c.qubits)]
    d = {}
    for g in c.gates:
        if type(g) is G.CNOT:
            rows[g.target] ^= rows[g.control]
        else:
            d[rows[g.target]] = (d.get(rows[g.target], 0) + g.phase) % 2
    return {k: v for k, v in d.items() if v}, rows


def mask(p):
    return sum(1 << i for i, b in enumerate(p) if b)


def same(case, what, c, d, sig):
    """The routed circuit has the phase polynomial of the original; if not, its unitary decides."""
    ok = all(type(g) is G.CNOT or isinstance(g, G.ZPhase) for g in d.gates) and d.qubits == c.qubits
    case.check(ok, what + ":gates", lambda: "%s gives other gates than CNOTs and Z phases: %s" % (what, gen.show_circ(d)))
    if poly(c) == poly(d):
        return
    if c.qubits <= 7 and ref.close_up_to_phase(gref.circ(c), gref.circ(d)):
        case.see("unitary_decided")
        return
    case.fail(what, "%s of %s gives %s: phase polynomial %s instead of %s; %s" % (what, gen.show_circ(c), gen.show_circ(d), poly(d), poly(c), sig))


def coupled(case, what, d, a):
    l = p13.links(a)
    bad = [(g.control, g.target) for g in d.gates if type(g) is G.CNOT and frozenset((g.control, g.target)) not in l]
    case.check(not bad, what + ":coupling", lambda: "%s: CNOTs %s are not on coupled qubits; %s" % (what, bad, p13.show(a)))


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def architecture(case):
    r = case.rng
    x = r.random()
    if x < .75:
        return p13.rand_arch(r, r.choice([1, 2, 3, 4, 5, 6, 7, 8]))
    if x < .93:
        return p13.dyn(r, r.choice(p13.A.dynamic_size_architectures), r.choice([2, 3, 4, 5, 6]))
    return create_architecture(r.choice([p13.A.IBM_QX2, p13.A.IBM_QX4, p13.A.RIGETTI_8Q_AGAVE, p13.A.REC_ARCH] + [p13.A.IBM_QX5, p13.A.SYCAMORE_LIKE, p13.A.RIGETTI_16Q_ASPEN] * (r.random() < .2)))


def k_route(case):
    r = case.rng
    a = architecture(case)
    n = a.n_qubits
    c = circ(r, n, None if n < 10 else 12)
    keep = [str(g) for g in c.gates]
    meth, root, split = r.choice(list(RoutingMethod)), r.choice(list(RootHeuristic)), r.choice(list(SplitHeuristic))
    kw = {}
    if meth == RoutingMethod.MATROID:
        kw = {k: r.random() < .5 for k in ('optimize_parity_order', 'optimize_partition_order') if r.random() < .7}
    elif meth != RoutingMethod.GRAY:
        kw = {k: True for k in ('zeroes_rec', 'neighbour_path', 'tie_break') if r.random() < .35}
        if meth == RoutingMethod.GRAY_MEIJER:
            kw = {}
    gauss = r.random() < .1
    mode = ElimMode.GAUSS_MODE if gauss else ElimMode.STEINER_MODE
    arg = c
    if r.random() < .3:
        arg = PhasePoly.fromCircuit(c)
        case.see("from_poly")
    d = quiet(route_phase_poly, arg, a, meth, mode, root_heuristic=root, split_heuristic=split, **kw)
    sig = "%s %s %s %s on %s" % (meth, root, split, kw, p13.show(a))
    same(case, "route_phase_poly(%s)" % meth, c, d, sig)
    if not gauss:
        coupled(case, "route_phase_poly(%s)" % meth, d, a)
    else:
        case.see("gauss_mode")
    case.check([str(g) for g in c.gates] == keep, "mutated", "the given circuit was changed")
    case.see("unchanged")
    # each parity gets its phase once
    ph, _ = poly(c)
    case.check(sum(1 for g in d.gates if isinstance(g, G.ZPhase)) <= len(ph), "phases", lambda: "%d phase gates for %d parities: %s" % (sum(1 for g in d.gates if isinstance(g, G.ZPhase)), len(ph), sig))
    case.see("method:" + str(meth))
    if meth in (RoutingMethod.GRAY, RoutingMethod.GRAY_MEIJER):
        case.see("root:" + str(root))
        case.see("split:" + str(split))
    if len(ph) > 1 and sum(1 for g in c.gates if type(g) is G.CNOT) > 1:
        case.note(gen.show_circ(c), sorted(map(sorted, p13.links(a))), str(meth), str(root), str(split), str(kw))
    case.sample(gen.show_circ(c) + " " + sig)


def k_synth(case):
    """The synthesis functions themselves, with and without an architecture, with permutations."""
    r = case.rng
    a = p13.rand_arch(r, r.choice([1, 2, 3, 4, 5, 6]))
    n = a.n_qubits
    c = circ(r, n, r.choice([0, 3, 8, 16]))
    pp = PhasePoly.fromCircuit(c)
    x = r.random()
    idp = list(range(n))
    routed = True
    if x < .2:
        what = 'gray_synth'
        f = lambda: pp.gray_synth(ElimMode.STEINER_MODE, a)
    elif x < .4:
        what = 'rec_gray'
        f = lambda: pp.rec_gray_synth(ElimMode.STEINER_MODE, a, root_heuristic=r.choice(list(RootHeuristic)), split_heuristic=r.choice(list(SplitHeuristic)))
    elif x < .6:
        what = 'ariannes'
        f = lambda: pp.Ariannes_synth(ElimMode.STEINER_MODE, a)
    elif x < .75:
        what, routed = r.choice([('gray_synth', False), ('rec_gray', False), ('ariannes', False)])
        case.see("no_architecture")
        f = lambda: {'gray_synth': pp.gray_synth, 'rec_gray': pp.rec_gray_synth, 'ariannes': pp.Ariannes_synth}[what](ElimMode.GAUSS_MODE, None)
    else:
        what = 'matroid'
        kw = {}
        mode = ElimMode.STEINER_MODE
        if n > 1 and r.random() < .6:
            mode = r.choice([ElimMode.GENETIC_STEINER_MODE, ElimMode.GENETIC_GAUSS_MODE, ElimMode.PSO_STEINER_MODE])
            kw = dict(population_size=4, n_iterations=1, input_perm=r.random() < .5, output_perm=r.random() < .5)
            if 'pso' in str(mode):
                kw.update(swarm_size=2, n_steps=1)
            case.see("genetic")
        routed = 'gauss' not in str(mode)
        f = lambda: pp.matroid_synth(mode, a, **kw)
    d, pin, pout = quiet(f)
    pin, pout = [int(v) for v in pin], [int(v) for v in pout]
    case.check(sorted(pin) == idp and sorted(pout) == idp, what + ":perm", lambda: "%s returns permutations %s %s" % (what, pin, pout))
    # physical qubit q holds logical qubit pin[q] at the start and pout[q] at the end
    got, rows = poly(d, [1 << pin[q] for q in range(n)])
    want, out = poly(c)
    ok = got == want and rows == [out[pout[q]] for q in range(n)]
    case.check(ok, what, lambda: "%s of %s gives %s with placements %s %s: phase polynomial %s %s, expected %s %s" % (what, gen.show_circ(c), gen.show_circ(d), pin, pout, got, rows, want, out))
    if routed:
        coupled(case, what, d, a)
    case.see(what)
    if len(want) > 1:
        case.note(what, gen.show_circ(c), sorted(map(sorted, p13.links(a))))


def k_poly(case):
    """The phase polynomial of a circuit, and phase-polynomial circuit generators."""
    r = case.rng
    n = r.randrange(1, 7)
    c = circ(r, n)
    pin = list(range(n))
    pout = list(range(n))
    if r.random() < .4:
        r.shuffle(pin)
        r.shuffle(pout)
        pp = PhasePoly.fromCircuit(c, initial_qubit_placement=pin, final_qubit_placement=pout)
        case.see("poly_placed")
        # fromCircuit re-indexes: qubit i's parity reads column initial_qubit_placement[i]
        inv = [pin.index(i) for i in range(n)]
        want, out = poly(c, [1 << inv[i] for i in range(n)])
        out = [out[i] for i in pout]
    else:
        pp = PhasePoly.fromCircuit(c)
        want, out = poly(c)
    got = {mask(p): v for p, v in pp.zphases.items()}
    case.check(len(got) == len(pp.zphases) and set(got) == set(want) and all((got[k] - want[k]) % 2 == 0 and -1 < got[k] <= 1 for k in got), "fromCircuit:phases", lambda: "phases %s of %s, expected %s" % (pp.zphases, gen.show_circ(c), want))
    case.check([mask(p) for p in pp.out_par] == out and all(len(p) == n for p in pp.out_par), "fromCircuit:outputs", lambda: "output parities %s of %s, expected %s" % (pp.out_par, gen.show_circ(c), out))
    case.check(pp.n_qubits == n and set(pp.all_parities) == set(pp.zphases), "fromCircuit:fields", "n_qubits or all_parities")
    if any(isinstance(g, G.ZPhase) for g in c.gates) and not want:
        case.see("cancelled")
    case.see("poly")
    if n <= 5:
        # the phase polynomial is the unitary: |x> -> exp(i pi sum_p phase [p.x]) |out x>
        u = np.zeros((2 ** n, 2 ** n), dtype=complex)
        w, o = poly(c)
        for x in range(2 ** n):
            bit = lambda m: bin(sum((1 << i) for i in range(n) if m >> i & 1 and x >> (n - 1 - i) & 1)).count('1') % 2
            y = sum(bit(o[i]) << (n - 1 - i) for i in range(n))
            u[y, x] = np.exp(1j * np.pi * float(sum(v * bit(m) for m, v in w.items())))
        if not ref.close_up_to_phase(u, gref.circ(c)):
            raise AssertionError("oracle: phase polynomial and gate matrices disagree on %s" % gen.show_circ(c))
        case.see("unitary")
    if r.random() < .1:
        b = c.copy()
        b.gates.insert(r.randrange(len(b.gates) + 1), r.choice([G.HAD(0), G.NOT(0), G.XPhase(0, Fraction(1, 4))]))
        try:
            PhasePoly.fromCircuit(b)
        except Exception:
            case.see("refused")
        else:
            case.fail("fromCircuit:refuse", "a circuit with other gates was accepted: %s" % gen.show_circ(b))
    parts = pp.partition(skip_output_parities=r.random() < .5, optimize_parity_order=r.random() < .5)
    flat = [mask(p) for q in parts for p in q]
    for q in parts:
        case.check(len(q) == n and p13_rank([mask(p) for p in q]) == n, "partition:independent", lambda: "a block %s of the partition is not a basis: %s" % (q, pp.zphases))
    miss = [p for p in pp.all_parities if mask(p) not in flat and mask(p) not in out]
    case.check(not miss, "partition:complete", lambda: "parities %s are in no block of %s" % (miss, parts))
    if len(parts) > 1:
        case.see("partition")
    # generators
    x = r.random()
    if n > 1 and x < .3:
        k, l = r.randrange(0, 4), r.randrange(0, 5)
        g = GEN.phase_poly(n, k, l)
        ok = g.qubits == n and sum(isinstance(e, G.ZPhase) for e in g.gates) == k * n and sum(type(e) is G.CNOT for e in g.gates) == k * l and len(g.gates) == k * (n + l)
        case.check(ok, "generate.phase_poly", lambda: "phase_poly(%d,%d,%d) gives %s" % (n, k, l, gen.show_circ(g)))
        case.see("generator")
    elif n > 1 and x < .5:
        k, l = r.randrange(1, 8), r.randrange(0, 6)
        g = GEN.phase_poly_approximate(n, k, l)
        ok = g.qubits == n and sum(type(e) is G.CNOT for e in g.gates) == k and all(type(e) is G.CNOT or isinstance(e, G.ZPhase) for e in g.gates) and (l > 0 or len(g.gates) == k)
        case.check(ok, "generate.phase_poly_approximate", lambda: "phase_poly_approximate(%d,%d,%d) gives %s" % (n, k, l, gen.show_circ(g)))
        case.see("generator")
    elif x < .8:
        k = r.randrange(0, min(2 ** n, 12))
        g = quiet(GEN.phase_poly_from_gadgets, n, k)
        w, o = poly(g)
        case.check(g.qubits == n and len(w) == k and o == [1 << i for i in range(n)], "generate.phase_poly_from_gadgets", lambda: "phase_poly_from_gadgets(%d,%d) has %d gadgets and outputs %s: %s" % (n, k, len(w), o, gen.show_circ(g)))
        case.see("gadgets")
    if len(want) > 1:
        case.note('poly', gen.show_circ(c), pin, pout)


def p13_rank(rows):
    rows, k = list(rows), 0
    while rows:
        p = rows.pop()
        if p:
            k += 1
            low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return k


KINDS = {'route': (k_route, 7000, 70000), 'synth': (k_synth, 4000, 40000), 'poly': (k_poly, 8000, 80000)}
