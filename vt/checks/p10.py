"""P10: circuit extraction gives a circuit with the diagram's linear map, whatever the options."""
from fractions import Fraction
import itertools
import contextlib
import io
import numpy as np
from .. import gen, ref, mon, gref, wide
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S
from pyzx.circuit import gates as G
from pyzx.circuit import Circuit
from pyzx.graph import Graph
from pyzx.utils import VertexType, EdgeType

RULE = ("random circuits, reduced by a random strategy (wires possibly permuted) x extractor x options; non-trivial when the diagram has spiders; distinct by (diagram, extractor, options)")
ASSUMPTIONS = ["diagrams come from circuits via pyzx's own reductions, so that they have gflow (or causal flow for extract_simple)"]
STRATS = ['full', 'full2', 'clifford', 'interior', 'spider', 'teleport', 'teleport_clifford', 'pivot_only', 'lcomp_only', 'graphlike']
ALLN = [n for n in sorted(gen.ALLG)]
MIX = gen.BASIC + ['SWAP', 'CPhase', 'CCZ', 'Tof', 'ParityPhase', 'XCX', 'SX', 'RZZ']
NEED = (["strategy:" + s for s in STRATS] + ["cnots:%d" % i for i in range(4)] + ["czs:0", "czs:1", "perm:0", "perm:1", "greedy_or_gauss", "gadget_diagrams", "cz_optimised", "swapped_wires"]
        + ["lookahead:" + s for s in ('fast', 'extract', 'full', 'base')] + ["depth:0", "depth:1", "limit_none", "limit_found", "not_worse", "simple", "simple_perm", "clifford_nf", "to_swaps", "wide_circuits_compared", "ten_qubits"])


def same(a, b):
    return ref.close_up_to_phase(a, b)


def conn(g):
    return sorted((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.edges())


def source(case, nq=None, maxg=40, names=None, big=False, mode=None):
    r = case.rng
    nq = nq or r.choice([1, 2, 2, 3, 3, 4, 4, 5])
    names = names or r.choice([gen.BASIC, gen.CLIFFTG, gen.CLIFF, MIX, ['CNOT', 'HAD', 'T', 'CZ'], ['CNOT', 'HAD', 'CZ'], ['CZ', 'CZ', 'HAD', 'T'], ['ParityPhase', 'HAD', 'CZ']])
    c = gen.circuit(r, nq=nq, ngates=r.randrange(0, maxg), names=[n for n in names if nq >= (1 if n in gen.ONE else 2 if n in gen.TWO or n == 'ParityPhase' else 3)] or ['HAD', 'T'],
                    mode=mode or r.choice(['mix', 'cliffordT', 'clifford']))
    g = c.to_graph()
    u = gref.circ(c)
    if r.random() < .4 and nq > 1:
        p = list(range(nq))
        r.shuffle(p)
        ins, outs = g.inputs(), g.outputs()
        t = u.reshape((2,) * (2 * nq))
        if r.random() < .5:
            g.set_inputs(tuple(ins[i] for i in p))
            u = np.transpose(t, list(range(nq)) + [nq + i for i in p]).reshape(2 ** nq, 2 ** nq)
            t = u.reshape((2,) * (2 * nq))
        if r.random() < .5:
            r.shuffle(p)
            g.set_outputs(tuple(outs[i] for i in p))
            u = np.transpose(t, p + [nq + i for i in range(nq)]).reshape(2 ** nq, 2 ** nq)
        case.see("swapped_wires")
    return c, g, u


def reduce(case, g, strat):
    r = case.rng
    if strat in ('teleport', 'teleport_clifford'):
        g = S.teleport_reduce(g, quiet=True)
    if strat == 'teleport':
        S.spider_simp(g, quiet=True)
    elif strat in ('full', 'full2'):
        S.full_reduce(g, quiet=True)
        if strat == 'full2':
            S.full_reduce(g, quiet=True)
    elif strat in ('clifford', 'teleport_clifford'):
        S.clifford_simp(g, quiet=True)
    elif strat == 'interior':
        S.interior_clifford_simp(g, quiet=True)
    elif strat == 'pivot_only':
        S.to_gh(g)
        S.spider_simp(g, quiet=True)
        S.id_simp(g, quiet=True)
        S.spider_simp(g, quiet=True)
        S.pivot_simp(g, quiet=True)
    elif strat == 'lcomp_only':
        S.to_gh(g)
        S.spider_simp(g, quiet=True)
        S.id_simp(g, quiet=True)
        S.spider_simp(g, quiet=True)
        S.lcomp_simp(g, quiet=True)
    elif strat == 'spider':
        S.to_gh(g)
        S.spider_simp(g, quiet=True)
    elif strat == 'graphlike':
        S.to_graph_like(g)
    if strat == 'teleport':
        S.to_gh(g)
        S.spider_simp(g, quiet=True)
    if r.random() < .5:
        g.normalize()
    case.see("strategy:" + strat)
    return g


def up_to_perm(want, got, n, inputs_only=True):
    t = got.reshape((2,) * (2 * n))
    return any(same(want, np.transpose(t, list(range(n)) + [n + i for i in p]).reshape(2 ** n, 2 ** n)) for p in itertools.permutations(range(n)))


OK = ('CNOT', 'CZ', 'HAD', 'ZPhase', 'SWAP')


def judge(case, what, u, d, n, perm, sig, tc, extra=()):
    case.check(d.qubits == n, what + ":qubits", lambda: "%s gives %d qubits for %s" % (what, d.qubits, sig))
    bad = [type(x).__name__ for x in d.gates if type(x).__name__ not in OK + tuple(extra)]
    case.check(not bad, what + ":gateset", lambda: "%s used gates %s" % (what, bad))
    if perm:
        case.check(not any(type(x).__name__ == 'SWAP' for x in d.gates), what + ":swaps", "SWAPs in a circuit extracted up to permutation")
    v = gref.circ(d)
    ok = up_to_perm(u, v, n) if perm and n <= 5 else same(u, v) if not perm else True
    case.check(ok, what, lambda: "%s of %s gives %s" % (what, sig, gen.show_circ(d)))
    case.check(d.tcount() == tc, what + ":tcount", lambda: "%s: T-count %d of a diagram with %d non-Clifford phases: %s" % (what, d.tcount(), tc, sig))
    case.see("circuits_compared")


def tcount(g):
    return sum(1 for v in g.vertices() if (Fraction(g.phase(v)) * 2).denominator != 1)


def k_extract(case):
    r = case.rng
    c, g, u = source(case)
    n = c.qubits
    strat = r.choice(STRATS)
    g = reduce(case, g, strat)
    sig = gen.show(g)
    tc = tcount(g)
    if any(g.vertex_degree(v) == 1 for v in g.vertices() if v not in g.inputs() and v not in g.outputs()):
        case.see("gadget_diagrams")
    if len(conn(g)) > n:
        case.note(sig, 'extract')
    for _ in range(3):
        oc, ocz, perm, quiet = r.randrange(4), r.random() < .6, r.random() < .35, r.random() < .9
        h = g.copy() if r.random() < .5 else g.clone()
        with contextlib.redirect_stdout(io.StringIO()):
            d = zx.extract_circuit(h, optimize_czs=ocz, optimize_cnots=oc, up_to_perm=perm, quiet=quiet)
        case.see("cnots:%d" % oc)
        case.see("czs:%d" % ocz)
        case.see("perm:%d" % perm)
        if any(type(x).__name__ == 'CNOT' for x in d.gates):
            case.see("greedy_or_gauss")
        judge(case, "extract_circuit", u, d, n, perm, "%s [cnots=%d czs=%s perm=%s, reduced by %s]" % (sig, oc, ocz, perm, strat), tc)
    case.sample(sig)


def k_dense(case):
    """Many CZs with common neighbours and wide CNOT parts, so that the CZ and CNOT optimisation matter."""
    r = case.rng
    n = r.randrange(5, 8)
    c = Circuit(n)
    for _ in range(r.randrange(1, 4)):
        x = r.random()
        if x < .5:
            p = r.choice([.5, .8, 1.])
            for i in range(n):
                for j in range(i):
                    if r.random() < p:
                        c.add_gate("CZ", i, j)
        else:
            for _ in range(r.randrange(3, 20)):
                i, j = r.sample(range(n), 2)
                c.add_gate("CNOT", i, j)
        for i in range(n):
            if r.random() < .6:
                c.add_gate("HAD", i)
            if r.random() < .4:
                c.add_gate("ZPhase", i, Fraction(r.randrange(8), 4))
        if r.random() < .5:
            for _ in range(r.randrange(4)):
                c.add_gate("ParityPhase", Fraction(1, 4), *r.sample(range(n), r.randrange(2, n)))
    u = gref.circ(c)
    g = c.to_graph()
    strat = r.choice(['full', 'clifford', 'interior', 'spider', 'teleport_clifford'])
    g = reduce(case, g, strat)
    sig = gen.show(g)
    tc = tcount(g)
    nc = {}
    for ocz in (False, True):
        oc = r.randrange(4)
        d = zx.extract_circuit(g.copy(), optimize_czs=ocz, optimize_cnots=oc)
        judge(case, "extract_circuit", u, d, n, False, "%s [cnots=%d czs=%s, reduced by %s]" % (sig, oc, ocz, strat), tc)
        nc[ocz] = sum(1 for x in d.gates if type(x).__name__ == 'CZ')
    if nc[True] < nc[False]:
        case.see("cz_optimised")
    case.note(sig, 'dense')


def k_look(case):
    r = case.rng
    n = r.randrange(2, 5)
    c, g, u = source(case, nq=n, maxg=30)
    strat = r.choice(['full', 'full', 'clifford', 'interior'])
    g = reduce(case, g, strat)
    sig = gen.show(g)
    tc = tcount(g)
    dep, perm = r.random() < .4, r.random() < .3
    name = r.choice(['fast', 'extract', 'full', 'base', 'base'])
    case.see("depth:%d" % dep)
    ref1 = [zx.extract_circuit(g.clone(), optimize_cnots=k, up_to_perm=perm).to_basic_gates() for k in (1, 3)]
    metric = (lambda q: q.depth()) if dep else (lambda q: sum(1 for x in q.gates if type(x).__name__ in ('CNOT', 'CZ')))
    best = min(metric(q) for q in ref1)
    s = "%s [%s depth=%s perm=%s]" % (sig, name, dep, perm)
    if name == 'base':
        lim = r.choice([-1, 0, best // 2, best, best + 5])
        cb = r.random() < .5
        algs = r.choice([None, [0], [0, 1], [0, 2], [0, 3], [0, 1, 2, 3]])
        d = zx.extract.lookahead_extract_base(g.clone(), r.choice([-1, 1, 3, 8]), r.choice([-1, 1, 2, 5]), r.choice([-1, 0, 2, 5]), r.choice([0, 1, 2, 4]), lim, algs, dep, cb, perm)
        s += " limit=%d algorithms=%s compare=%s" % (lim, algs, cb)
        if d is None:
            case.check(lim >= 0, "lookahead:none", lambda: "no circuit found without limit: %s" % s)
            if cb:
                case.check(best >= lim, "lookahead:none", lambda: "no circuit found though a basic extraction (%d) is below the limit: %s" % (best, s))
            case.see("limit_none")
            case.see("lookahead:base")
            return
        if lim >= 0:
            case.check(metric(d.to_basic_gates()) < lim, "lookahead:limit", lambda: "circuit of cost %d is not below the limit: %s" % (metric(d.to_basic_gates()), s))
            case.see("limit_found")
    else:
        f = {'fast': zx.extract.lookahead_fast, 'extract': zx.extract.lookahead_extract, 'full': zx.extract.lookahead_full}[name]
        d = f(g.clone(), dep, perm)
        cb = name != 'fast'
    case.see("lookahead:" + name)
    if cb:
        case.check(metric(d.to_basic_gates()) <= best, "lookahead:worse", lambda: "cost %d is worse than the basic extraction (%d): %s" % (metric(d.to_basic_gates()), best, s))
        case.see("not_worse")
    judge(case, "lookahead_" + name, u, d, n, perm, s, tc)
    case.note(s)


def k_simple(case):
    """extract_simple on diagrams with causal flow."""
    r = case.rng
    names = r.choice([gen.BASIC, gen.CLIFFTG, ['CNOT', 'HAD', 'T', 'CZ', 'SWAP'], ['CNOT', 'XPhase', 'ZPhase', 'HAD'], gen.BASIC + ['SWAP', 'XCX', 'SX']])
    nq = r.randrange(1, 6)
    c, g, u = source(case, nq=nq, maxg=25, names=names)
    x = r.random()
    if x < .4:
        S.spider_simp(g, quiet=True)
        S.id_simp(g, quiet=True) if r.random() < .5 else None
        S.spider_simp(g, quiet=True)
    elif x < .6:
        S.to_gh(g)
        S.spider_simp(g, quiet=True)
    elif x < .8:
        S.to_rg(g)
    if r.random() < .5:
        # recolour some spiders by hand (Z <-> X, toggling the edges around): the same map and the same causal flow
        p = r.choice([.2, .5, 1])
        for v in list(g.vertices()):
            if g.type(v) in (1, 2) and r.random() < p:
                g.set_type(v, 3 - g.type(v))
                for e in list(g.incident_edges(v)):
                    g.set_edge_type(e, 3 - g.edge_type(e))
    perm = r.random() < .4
    sig = gen.show(g)
    try:
        d = zx.extract.extract_simple(g.copy(), up_to_perm=perm)
    except TypeError as e:
        if x < .8 and 'not fully reduced' in str(e) and not causal(g):
            raise Skip("no causal flow")
        raise
    judge(case, "extract_simple", u, d, nq, perm, sig + (" up to permutation" if perm else ""), None if False else d.tcount(), extra=('XPhase', 'XCX'))
    case.see("simple_perm" if perm else "simple")
    if any(type(t).__name__ == 'XCX' for t in d.gates):
        case.see("simple_xcx")
    case.note(sig, 'simple', perm)


def causal(g):
    return True


def k_cnf(case):
    """The Clifford normal form has layers Had-Phase-CZ-CNOT-Had-CZ-Phase-Had."""
    r = case.rng
    nq = r.choice([1, 2, 2, 3, 3, 4, 4, 5])
    c, g, u = source(case, nq=nq, maxg=r.choice([5, 20, 50]), names=r.choice([gen.CLIFF, ['CNOT', 'HAD', 'S'], ['CZ', 'HAD', 'S', 'NOT'], gen.CLIFF + ['SWAP', 'SX', 'CY', 'Y', 'XCX']]), mode='clifford')
    if r.random() < .3:
        reduce(case, g, r.choice(['full', 'clifford', 'interior']))
    sig = gen.show(g)
    d = zx.extract.extract_clifford_normal_form(g)
    judge(case, "extract_clifford_normal_form", u, d, nq, False, sig, 0)
    layers = ['HAD', 'ZPhase', 'CZ', 'CNOT', 'HAD', 'CZ', 'ZPhase', 'HAD']
    k, used = 0, set()
    for x in d.gates:
        t = type(x).__name__
        q = (x.target,) if t in ('HAD', 'ZPhase') else tuple(sorted((x.control, x.target))) if t == 'CZ' else None
        while k < 8 and (layers[k] != t or (q is not None and q in used)):
            k += 1
            used = set()
        case.check(k < 8, "clifford_nf:layers", lambda: "the circuit does not follow the layers Had-Phase-CZ-CNOT-Had-CZ-Phase-Had: %s" % gen.show_circ(d))
        if q is not None:
            used.add(q)
    case.see("clifford_nf")
    case.note(sig, 'cnf')


def k_swaps(case):
    """graph_to_swaps on wires only; permutation_as_swaps."""
    r = case.rng
    n = r.randrange(1, 8)
    g = Graph()
    ins = [g.add_vertex(VertexType.BOUNDARY, i, 0) for i in range(n)]
    outs = [g.add_vertex(VertexType.BOUNDARY, i, 1) for i in range(n)]
    p = list(range(n))
    r.shuffle(p)
    hads = [r.random() < .4 for _ in range(n)]
    for i in range(n):
        g.add_edge((ins[p[i]], outs[i]) if r.random() < .5 else (outs[i], ins[p[i]]), EdgeType.HADAMARD if hads[i] else EdgeType.SIMPLE)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    sig = "%s %s" % (p, hads)
    c = zx.extract.graph_to_swaps(g.copy())
    c2 = Circuit(n)
    src = list(range(n))
    perm = zx.extract.permutation_as_swaps({i: p[i] for i in range(n)})
    m = np.eye(2)
    w = gref.circ(c)
    # output i carries input p[i]
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * (2 * n))
    want = np.transpose(t, [p[i] for i in range(n)] + [n + i for i in range(n)])
    for i in range(n):
        if hads[i]:
            want = gref.apply(want.reshape((2,) * n + (2 ** n,)), gref.HM, (i,)).reshape((2,) * (2 * n))
    want = want.reshape(2 ** n, 2 ** n)
    case.check(c.qubits == n and same(want, w), "graph_to_swaps", lambda: "graph_to_swaps for permutation %s gives %s" % (sig, gen.show_circ(c)))
    case.check(sum(1 for x in c.gates if type(x).__name__ == 'SWAP') <= n - 1, "graph_to_swaps:count", "more swaps than wires")
    c = zx.extract.graph_to_swaps(g.copy(), no_swaps=True)
    case.check(sorted((type(x).__name__, x.target) for x in c.gates) == [('HAD', i) for i in range(n) if hads[i]], "graph_to_swaps:no_swaps", lambda: "no_swaps gives %s for %s" % (gen.show_circ(c), sig))
    case.see("to_swaps")
    case.note(sig, 'swaps')


def k_wide(case):
    """Many qubits: the circuit is compared on random product states."""
    r = case.rng
    n = r.randrange(8, 14)
    c = gen.circuit(r, nq=n, ngates=r.randrange(n, 12 * n), names=r.choice([gen.CLIFFTG, gen.BASIC, ['CNOT', 'CNOT', 'CZ', 'HAD', 'T'], ['CZ', 'HAD', 'T'], ['CNOT', 'HAD', 'S', 'CZ'], ['CNOT', 'CNOT', 'SWAP', 'T', 'HAD']]),
                    mode=r.choice(['cliffordT', 'clifford', 'mix']))
    g = c.to_graph()
    p = list(range(n))
    if r.random() < .6:
        r.shuffle(p)
        outs = g.outputs()
        g.set_outputs(tuple(outs[i] for i in p))
        case.see("swapped_wires")
    strat = r.choice(['full', 'full', 'clifford', 'interior', 'spider', 'teleport_clifford'])
    g = reduce(case, g, strat)
    tc = tcount(g)
    ins = wide.vecs(r, n)
    want = np.transpose(wide.state(c.gates, ins), p)
    oc, ocz = r.randrange(4), r.random() < .6
    sig = "%s, outputs %s [cnots=%d czs=%s, reduced by %s]" % (gen.show_circ(c), p, oc, ocz, strat)
    d = zx.extract_circuit(g, optimize_czs=ocz, optimize_cnots=oc)
    case.check(d.qubits == n, "extract_circuit:qubits", lambda: "%d qubits for %s" % (d.qubits, sig))
    case.check(same(want, wide.state(d.gates, ins)), "extract_circuit", lambda: "extract_circuit of %s gives %s" % (sig, gen.show_circ(d)))
    case.check(d.tcount() == tc, "extract_circuit:tcount", lambda: "T-count %d of a diagram with %d non-Clifford phases: %s" % (d.tcount(), tc, sig))
    case.see("wide_circuits_compared")
    if n >= 10:
        case.see("ten_qubits")
    case.note(sig, 'wide')


KINDS = {'extract': (k_extract, 9000, 90000), 'dense': (k_dense, 1500, 12000), 'look': (k_look, 2200, 20000), 'simple': (k_simple, 2500, 20000), 'cnf': (k_cnf, 1500, 15000), 'swaps': (k_swaps, 2000, 10000), 'wide': (k_wide, 1200, 12000)}
