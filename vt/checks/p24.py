"""P24: generators of diagrams and circuits produce what was asked for."""
from fractions import Fraction
import random
import numpy as np
from .. import gen, ref, gref, mon
from ..run import Skip
from . import p22
import pyzx as zx
from pyzx import generate as GEN
from pyzx.circuit import Circuit, gates as G
from pyzx.utils import VertexType, EdgeType
from pyzx.routing.parity_maps import CNOT_tracker

RULE = ("generator x sizes, probabilities, phases, backends and random states; non-trivial when the result has at least one spider or gate; distinct by result")
ASSUMPTIONS = ["generators that place two-qubit gates are asked for at least two qubits (with one qubit a ValueError is accepted)",
               "diagrams of generate.cliffords are compared up to a nonzero factor, all others exactly up to a global phase",
               "frequencies are accepted within six standard deviations"]
NEED = ["identity", "spider:Z", "spider:X", "spider:H", "spider:W", "spider:ZBox", "had_circuit", "cnots", "cliffordT", "cliffordTmeas", "cliffords", "multigraph", "measured",
        "frequencies", "partial", "identities", "commuting", "parity_map", "tracker", "phase_poly", "approximate", "gadgets", "zero_probability", "rejected", "full", "one_qubit"]


def rows_circuit(case, g, what, had=False):
    """An independent reading of a generated diagram: the vertices of each row, in order, as gates"""
    ins, outs = list(g.inputs()), list(g.outputs())
    n = len(ins)
    for l, name in ((ins, 'inputs'), (outs, 'outputs')):
        case.check([g.qubit(v) for v in l] == list(range(n)) and all(int(g.type(v)) == 0 and g.vertex_degree(v) == 1 for v in l), what + ":boundary",
                   lambda: "%s of %s are on qubits %s: %s" % (name, what, [g.qubit(v) for v in l], gen.show(g)))
    rows = {}
    last = {}
    for v in g.vertices():
        if v not in ins:
            rows.setdefault(g.row(v), []).append(v)
    for v in ins:
        last[g.qubit(v)] = v
    used = 0
    gates = []
    for row in sorted(rows):
        here = sorted(rows[row], key=g.qubit)
        for v in here:
            q = g.qubit(v)
            case.check(g.connected(last[q], v), what + ":wire", lambda: "%s has no wire to %s on qubit %s: %s" % (what, v, q, gen.show(g)))
            used += 1
            if int(g.edge_type(g.edge(last[q], v))) == 2:
                gates.append(G.HAD(q))
            last[q] = v
        for v in here:
            q, t, p = g.qubit(v), int(g.type(v)), g.phase(v)
            if g.is_ground(v):
                case.check(t == 1 and p == 0, what + ":measurement", lambda: "%s measures with vertex %s: %s" % (what, v, gen.show(g)))
                gates.append(G.Measurement(q, None))
            if p != 0:
                gates.append((G.ZPhase if t == 1 else G.XPhase)(q, p))
        for i, v in enumerate(here):
            for w in here[i + 1:]:
                if g.connected(v, w):
                    a, b = (v, w) if int(g.type(v)) == 1 else (w, v)
                    used += 1
                    case.check((int(g.type(a)), int(g.type(b))) == (1, 2) and int(g.edge_type(g.edge(a, b))) == 1, what + ":vertical",
                               lambda: "%s connects %s and %s: %s" % (what, v, w, gen.show(g)))
                    gates.append(G.CNOT(g.qubit(a), g.qubit(b)))
    case.check(used == g.num_edges() and [last[q] for q in range(n)] == outs, what + ":edges", lambda: "%s has edges outside the circuit: %s" % (what, gen.show(g)))
    return gates


def compare(case, what, g, gates, n, exact):
    measured = any(isinstance(x, G.Measurement) for x in gates)
    if measured:
        case.see("measured")
        got, want = ref.channel(g), p22.superop(gates, n, 0)
    else:
        got = ref.matrix(g)
        want = gref.unitary(gates, n)
    ok, k = ref.close_up_to_scalar(want, got)
    case.see("maps_compared")
    case.check(ok, what + ":map", lambda: "%s does not denote the circuit that its rows show, %s: %s" % (what, [str(x) for x in gates], gen.show(g)))
    if exact:
        nn = np.linalg.norm(got) / np.linalg.norm(want)
        case.check(abs(nn - 1) < 1e-6, what + ":norm", lambda: "%s is %.4f times the circuit that its rows show: %s" % (what, nn, gen.show(g)))


def k_basic(case):
    r = case.rng
    if r.random() < .3:
        n, depth, be = r.randrange(0, 5), r.choice([1, 1, 2, 5, .5]), r.choice([None, 'simple', 'multigraph'])
        g = GEN.identity(n, depth, be)
        case.see("identity")
        ok = len(g.inputs()) == len(g.outputs()) == n and g.num_vertices() == 2 * n and g.num_edges() == n
        case.check(ok and [g.qubit(v) for v in g.inputs()] == [g.qubit(v) for v in g.outputs()] == list(range(n)) and all(g.row(v) == depth for v in g.outputs()), "identity:shape",
                   lambda: "identity(%s,%s) is %s" % (n, depth, gen.show(g)))
        case.check(ref.close(ref.matrix(g), np.eye(2 ** n)), "identity:map", lambda: "identity(%s,%s) is %s" % (n, depth, gen.show(g)))
        c = Circuit.from_graph(g)
        case.check(c.qubits == n and not c.gates, "identity:circuit", lambda: "from_graph of identity(%s) is %s" % (n, gen.show_circ(c)))
        return
    t = r.choice(['Z', 'X', 'H', 'W', 'ZBox'])
    i, o = r.randrange(0, 4), r.randrange(0, 4)
    if t == 'W':
        i, o = 1, r.randrange(1, 4)
    if t == 'ZBox':
        ph = r.choice([None, r.choice([Fraction(1, 2), 2, complex(r.uniform(-2, 2), r.uniform(-2, 2)), complex(0, 1), Fraction(-3, 4), 0.25])])
    elif t == 'W':
        ph = None
    else:
        ph = r.choice([None, gen.phase(r, 'mix'), 1, 0])
        if t == 'H' and ph is None:
            ph = Fraction(1)
    typ = t if r.random() < .7 else {'Z': VertexType.Z, 'X': VertexType.X, 'H': VertexType.H_BOX, 'W': VertexType.W_OUTPUT, 'ZBox': VertexType.Z_BOX}[t]
    g = GEN.spider(typ, i, o) if ph is None and r.random() < .5 else GEN.spider(typ, i, o, ph)
    sig = "spider(%s,%s,%s,%s)" % (typ, i, o, ph)
    case.see("spider:" + t)
    case.check(len(g.inputs()) == i and len(g.outputs()) == o and g.num_vertices() == i + o + (2 if t == 'W' else 1), "spider:shape", lambda: "%s is %s" % (sig, gen.show(g)))
    n = i + o
    if t == 'Z' or t == 'ZBox':
        a = complex(ph if ph is not None else 1) if t == 'ZBox' else ref.ephase(ph or 0)
        v = np.zeros(2 ** n, dtype=complex)
        v[0] += 1
        v[-1] += a
    elif t == 'X':
        v = np.zeros(2 ** n, dtype=complex)
        for b in range(2 ** n):
            v[b] = (1 + (-1) ** bin(b).count('1') * ref.ephase(ph or 0)) / 2 ** (n / 2)
    elif t == 'H':
        v = np.ones(2 ** n, dtype=complex)
        v[-1] = ref.ephase(ph)
    else:
        v = np.zeros(2 ** n, dtype=complex)
        for b in range(2 ** o):
            k = bin(b).count('1')
            if k == 0:
                v[0] = 1        # input 0, no output
            elif k == 1:
                v[b | (1 << o)] = 1
    m = ref.tensor(g)
    # ref.tensor has outputs first, inputs last; v has inputs first
    want = v.reshape((2,) * n).transpose([i + x for x in range(o)] + list(range(i)))
    case.check(ref.close(np.asarray(m).reshape((2,) * n), want, atol=1e-6), "spider:map", lambda: "%s is %s: %s" % (sig, gen.show(g), ref.describe(want, np.asarray(m).reshape((2,) * n))))
    case.note("spider", sig)


def k_had(case):
    r = case.rng
    n, d = r.randrange(2, 6), r.randrange(0, 30)
    ph, pt, cl = r.choice([0, .2, .5, 1]), r.choice([0, .2, .4]), r.random() < .5
    if ph + pt > 1:
        pt = 0
    c = GEN.CNOT_HAD_PHASE_circuit(n, d, ph, pt, clifford=cl)
    sig = "CNOT_HAD_PHASE_circuit(%s,%s,%s,%s,%s)" % (n, d, ph, pt, cl)
    kinds = {'HAD': ph, 'CNOT': 1 - ph - pt, 'S' if cl else 'T': pt}
    for x in c.gates:
        case.check(x.name in kinds and (kinds[x.name] > 1e-9), "had:gateset", lambda: "%s contains %s" % (sig, x))
        case.check(not getattr(x, 'adjoint', False), "had:adjoint", lambda: "%s contains %s" % (sig, x))
        qs = [x.target] + ([x.control] if x.name == 'CNOT' else [])
        case.check(all(0 <= q < n for q in qs) and len(set(qs)) == len(qs), "had:qubits", lambda: "%s contains %s" % (sig, x))
    case.check(len(c.gates) == d and c.qubits == n, "had:size", lambda: "%s has %s gates on %s qubits" % (sig, len(c.gates), c.qubits))
    case.see("had_circuit")
    if 0 in kinds.values():
        case.see("zero_probability")
    if d:
        case.note("had", gen.show_circ(c))


def k_diagram(case):
    r = case.rng
    which = r.choice(['cnots', 'cliffordT', 'cliffordTmeas', 'cliffords'])
    be = r.choice([None, None, 'multigraph'])
    n, d = r.randrange(2, 5), r.randrange(0, 12)
    if which == 'cliffordTmeas':
        n = r.randrange(2, 4)
    sig = which
    exact = which != 'cliffords'
    if which == 'cnots':
        g = GEN.cnots(n, d, be) if be else GEN.cnots(n, d)
        sig = "cnots(%s,%s,%s)" % (n, d, be)
    elif which == 'cliffords':
        nh, t = r.random() < .4, r.random() < .5
        g = GEN.cliffords(n, d, no_hadamard=nh, t_gates=t, backend=be)
        sig = "cliffords(%s,%s,%s,%s,%s)" % (n, d, nh, t, be)
    else:
        ps = {k: r.choice([None, None, 0, 0.1, .25]) for k in ('p_t', 'p_s', 'p_hsh', 'p_cnot') + (('p_meas',) if which == 'cliffordTmeas' else ())}
        if all(p is not None for p in ps.values()):
            ps[r.choice(sorted(ps))] = None
        g = getattr(GEN, which)(n, d, backend=be, **ps)
        sig = "%s(%s,%s,%s,%s)" % (which, n, d, ps, be)
    case.see(which)
    if be:
        case.see("multigraph")
        case.check(type(g).__name__ == 'Multigraph', "backend", lambda: "%s is a %s" % (sig, type(g)))
    case.check(len(g.inputs()) == len(g.outputs()) == n, which + ":io", lambda: "%s has boundaries %s %s" % (sig, g.inputs(), g.outputs()))
    gates = rows_circuit(case, g, sig.split('(')[0])
    compare(case, which, g, gates, n, exact)
    counts = {}
    for x in gates:
        k = 'Measurement' if isinstance(x, G.Measurement) else x.name
        counts[k] = counts.get(k, 0) + 1
    if which == 'cnots':
        case.check(counts == ({'CNOT': d} if d else {}), "cnots:gates", lambda: "%s has gates %s" % (sig, counts))
    elif which == 'cliffords':
        ph = [x.phase for x in gates if x.name in ('ZPhase', 'XPhase')]
        case.check(t or all(p.denominator <= 2 for p in ph), "cliffords:T", lambda: "%s has phases %s" % (sig, ph))
        case.check(all(p.denominator <= 4 for p in ph), "cliffords:phases", lambda: "%s has phases %s" % (sig, ph))
        case.check(not nh or 'HAD' not in counts, "cliffords:hadamard", lambda: "%s has Hadamards" % sig)
        case.check(sum(1 for v in g.vertices()) == 4 * n + 2 * d, "cliffords:depth", lambda: "%s has %s vertices" % (sig, g.num_vertices()))
    else:
        tot = sum(counts.values())
        num = {'p_cnot': counts.get('CNOT', 0), 'p_hsh': counts.get('XPhase', 0), 'p_s': sum(1 for x in gates if x.name == 'ZPhase' and x.phase == Fraction(1, 2)),
               'p_t': sum(1 for x in gates if x.name == 'ZPhase' and x.phase == Fraction(1, 4)), 'p_meas': counts.get('Measurement', 0)}
        case.check(sum(num.values()) == d == tot, which + ":depth", lambda: "%s has gates %s" % (sig, [str(x) for x in gates]))
        case.check(all(x.phase == Fraction(1, 2) for x in gates if x.name == 'XPhase'), which + ":hsh", lambda: "%s has gates %s" % (sig, [str(x) for x in gates]))
        if which == 'cliffordT':
            case.check(num['p_meas'] == 0, which + ":measures", lambda: "%s measures" % sig)
        for k, p in ps.items():
            if p == 0:
                case.see("zero_probability")
                case.check(num[k] == 0, which + ":zero", lambda: "%s has %s gates of the kind with probability 0 (%s)" % (sig, num[k], k))
        if any(p is None for p in ps.values()) and any(p for p in ps.values()):
            case.see("partial")
    if d:
        case.note("diagram", gen.show(g))


def k_freq(case):
    r = case.rng
    n, d = r.randrange(2, 6), 1500
    # cliffordT with a random choice of given and missing probabilities
    meas = r.random() < .5
    names = ['p_t', 'p_s', 'p_hsh', 'p_cnot'] + (['p_meas'] if meas else [])
    given = {}
    rest = 1.0
    for k in r.sample(names, r.randrange(0, len(names))):
        given[k] = r.choice([0, .05, .1, .2, .3])
        if rest - given[k] < .02:
            given[k] = 0
        rest -= given[k]
    missing = [k for k in names if k not in given]
    want = dict(given)
    for k in missing:
        want[k] = rest / len(missing)
    g = (GEN.cliffordTmeas if meas else GEN.cliffordT)(n, d, **given)
    sig = "%s(%s,%s,%s)" % ('cliffordTmeas' if meas else 'cliffordT', n, d, given)
    num = {k: 0 for k in names}
    qs = [0] * n
    for v in g.vertices():
        t, p = int(g.type(v)), g.phase(v)
        if g.is_ground(v):
            num['p_meas'] = num.get('p_meas', 0) + 1
        elif t == 2 and p == Fraction(1, 2):
            num['p_hsh'] += 1
        elif t == 2:
            num['p_cnot'] += 1
        elif t == 1 and p == Fraction(1, 2):
            num['p_s'] += 1
        elif t == 1 and p == Fraction(1, 4):
            num['p_t'] += 1
        else:
            continue
        qs[g.qubit(v)] += 1
    case.check(sum(num.values()) == d, "frequency:total", lambda: "%s has %s gates" % (sig, num))
    case.see("frequencies")
    for k in names:
        p = want[k]
        sd = (p * (1 - p) * d) ** .5
        case.check(abs(num.get(k, 0) - p * d) <= 6 * sd + 1, "frequency", lambda: "%s has %s gates of kind %s, expected %.1f" % (sig, num, k, p * d))
    sd = (d * (1 / n) * (1 - 1 / n)) ** .5
    case.check(all(abs(x - d / n) < 6.5 * sd + 1 for x in qs), "frequency:qubits", lambda: "%s places %s gates on the qubits" % (sig, qs))
    bad = dict(given)
    bad['p_t'] = 1.2
    try:
        GEN.cliffordT(2, 3, **{k: v for k, v in bad.items() if k != 'p_meas'})
        case.fail("probabilities-above-1", "cliffordT accepts %s" % bad)
    except ValueError:
        case.see("rejected")
    full = dict(zip(('p_t', 'p_s', 'p_hsh', 'p_cnot'), r.sample(r.choice([[.7, .2, .1, 0], [.4, .3, .2, .1], [.25] * 4, [.6, .3, .1, 0], [1, 0, 0, 0], [.5, .2, .2, .1]]), 4)))
    g = GEN.cliffordT(2, 400, **full)
    num = {'p_t': 0, 'p_s': 0, 'p_hsh': 0, 'p_cnot': 0}
    for v in g.vertices():
        if int(g.type(v)) == 2:
            num['p_hsh' if g.phase(v) else 'p_cnot'] += 1
        elif g.phase(v):
            num['p_s' if g.phase(v) == Fraction(1, 2) else 'p_t'] += 1
    case.check(sum(num.values()) == 400 and all(abs(num[k] - 400 * p) <= 6 * (400 * p * (1 - p)) ** .5 + .5 for k, p in full.items()), "frequency:full", lambda: "cliffordT(2,400,%s) has %s" % (full, num))
    case.see("full")
    try:
        c = GEN.CNOT_HAD_PHASE_circuit(1, 30, *r.choice([(.2, .2), (.5, 0)]))
        case.fail("one-qubit", "a CNOT on one qubit: %s" % gen.show_circ(c))
    except ValueError:
        case.see("one_qubit")
    # CNOT_HAD_PHASE
    ph, pt = r.choice([(.2, .2), (.5, .1), (.1, .7), (0, .3), (.3, 0)])
    c = GEN.CNOT_HAD_PHASE_circuit(n, d, ph, pt)
    for nm, p in (('HAD', ph), ('T', pt), ('CNOT', 1 - ph - pt)):
        k = sum(x.name == nm for x in c.gates)
        case.check(abs(k - p * d) <= 6 * (p * (1 - p) * d) ** .5 + 1, "frequency:had", lambda: "CNOT_HAD_PHASE_circuit(%s,%s,%s,%s) has %s %s gates, expected %.1f" % (n, d, ph, pt, k, nm, p * d))
    case.note("freq", sig)


def k_ident(case):
    r = case.rng
    which = r.choice(['phasepoly', 'two1', 'two2', 'commuting', 'commuting', 'commuting'])
    if which == 'commuting':
        a, b = gen.phase(r, 'wild'), gen.phase(r, 'wild')
        c = GEN.circuit_identity_commuting_controls(a, b)
        case.see("commuting")
        case.note("commuting", a, b)
    else:
        c = {'phasepoly': GEN.circuit_identity_phasepoly, 'two1': GEN.circuit_identity_two_qubit1, 'two2': GEN.circuit_identity_two_qubit2}[which]()
        case.note(which)
    u = gref.circ(c)
    case.see("identities")
    case.check(ref.close_up_to_scalar(np.eye(len(u)), u)[0], "identity:" + which, lambda: "the circuit identity %s is not the identity: %s" % (which, gen.show_circ(c)))


def k_poly(case):
    r = case.rng
    n, k = r.randrange(2, 7), r.randrange(0, 12)
    which = r.choice(['parity', 'tracker', 'phase_poly', 'approximate', 'gadgets'])
    if which in ('parity', 'tracker'):
        if which == 'tracker':
            trs = [CNOT_tracker(n) for _ in range(r.choice([1, 2]))]
            m = GEN.build_random_parity_map(n, k, trs if len(trs) > 1 or r.random() < .5 else trs[0])
            for t in trs:
                a = np.eye(n, dtype=int)
                for x in t.gates:
                    case.check(x.name == 'CNOT', "parity_map:gates", lambda: "the circuit contains %s" % x)
                    a[x.target] ^= a[x.control]
                case.check(len(t.gates) == k, "parity_map:count", lambda: "build_random_parity_map(%s,%s) recorded %s CNOTs" % (n, k, len(t.gates)))
                case.check(np.array_equal(a, np.array(m)), "parity_map:circuit", lambda: "build_random_parity_map(%s,%s) returns %s but recorded the circuit %s" % (n, k, np.array(m).tolist(), gen.show_circ(t)))
            case.see("tracker")
        else:
            m = GEN.build_random_parity_map(n, k)
            case.see("parity_map")
        a = np.array(m, dtype=int)
        case.check(a.shape == (n, n) and round(abs(np.linalg.det(a))) % 2 == 1, "parity_map:invertible", lambda: "build_random_parity_map(%s,%s) = %s" % (n, k, a.tolist()))
        case.note("parity", a.tobytes())
        return
    if which == 'phase_poly':
        l = r.randrange(0, 4)
        c = GEN.phase_poly(n, l, k)
        case.see("phase_poly")
        layers = []
        ok = len(c.gates) == l * (k + n)
        for i in range(l):
            part = c.gates[i * (k + n):(i + 1) * (k + n)]
            ok = ok and all(type(x) is G.CNOT for x in part[:k]) and [x.target for x in part[k:]] == list(range(n)) and all(isinstance(x, G.ZPhase) for x in part[k:])
        case.check(ok, "phase_poly", lambda: "phase_poly(%s,%s,%s) is %s" % (n, l, k, gen.show_circ(c)))
    elif which == 'approximate':
        k, l = k + 1, r.randrange(0, 8)
        c = GEN.phase_poly_approximate(n, k, l)
        case.see("approximate")
        ok = sum(type(x) is G.CNOT for x in c.gates) == k and all(type(x) is G.CNOT or isinstance(x, G.ZPhase) for x in c.gates) and (l or len(c.gates) == k)
        case.check(ok, "phase_poly_approximate", lambda: "phase_poly_approximate(%s,%s,%s) is %s" % (n, k, l, gen.show_circ(c)))
    else:
        from . import p14
        n = r.randrange(1, 5)
        k = r.randrange(0, min(2 ** n, 12))
        if r.random() < .03:
            n, k = r.choice([10, 18, 25 if r.random() < .1 else 24 if r.random() < .2 else 20, 26, 27, 31, 32, 33, 40, r.choice([62, 63, 64, 65, 70])]), r.randrange(1, 6)
            case.see("gadgets_wide")
        c = p14.quiet(GEN.phase_poly_from_gadgets, n, k)
        case.see("gadgets")
        w, o = p14.poly(c)
        case.check(c.qubits == n and len(w) == k and o == [1 << i for i in range(n)], "phase_poly_from_gadgets", lambda: "phase_poly_from_gadgets(%s,%s) is %s" % (n, k, gen.show_circ(c)))
    for x in c.gates:
        if isinstance(x, G.ZPhase):
            case.check(Fraction(x.phase).denominator in (1, 2, 4) and 0 <= x.target < n, which + ":phase", lambda: "%s contains %s" % (which, x))
        else:
            case.check(0 <= x.target < n and 0 <= x.control < n and x.target != x.control, which + ":qubits", lambda: "%s contains %s" % (which, x))
    case.note(which, gen.show_circ(c))


KINDS = {'basic': (k_basic, 8000, 300000), 'had': (k_had, 5000, 200000), 'diagram': (k_diagram, 14000, 700000), 'freq': (k_freq, 600, 20000), 'ident': (k_ident, 600, 20000), 'poly': (k_poly, 6000, 300000)}
