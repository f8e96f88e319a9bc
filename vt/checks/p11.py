"""P11: circuit optimisers preserve the unitary and never raise the T-count."""
from fractions import Fraction
import itertools
import contextlib
import io
import os
import sys
import numpy as np
from .. import gen, ref, mon, gref, wide
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S
from pyzx.circuit import gates as G
from pyzx.circuit import Circuit
from pyzx.linalg import Mat2
from pyzx.optimize import basic_optimization, phase_block_optimize, full_optimize, Optimizer
from pyzx.todd import todd_iter, todd_simp, todd_on_graph, phase_gates_to_poly, par_matrix_to_gates, ParityPolynomial, MultiLinearPoly
from pyzx.parity_network import parity_network

RULE = ("random circuits of structured families x optimiser x options; non-trivial when the circuit has at least three gates; distinct by (circuit, optimiser, options)")
ASSUMPTIONS = ["phase-polynomial optimisation is only claimed for Clifford+T circuits, as documented", "circuits denote their matrix up to a global phase"]
NEED = ["basic", "basic_noswaps", "phase_block", "phase_block_plain", "full", "todd_simp", "todd_iter", "todd_reduced", "parity_network", "optimized_smaller", "t_reduced", "connectivity", "argument_unchanged", "refused", "correction", "todd_on_graph", "topt", "wide:basic", "wide:block", "wide:full", "wide:todd"]


def same(a, b):
    return ref.close_up_to_phase(a, b)


OPT = ['ZPhase', 'Z', 'S', 'T', 'NOT', 'HAD', 'CNOT', 'CZ']


def circ(case, names=OPT, nq=None, n=None, cliffT=False):
    """A circuit with runs that make the optimiser's rules fire: repeated pairs, swapped CNOTs, HAD-S-HAD, NOTs."""
    r = case.rng
    nq = nq or r.choice([1, 2, 2, 3, 3, 4, 5])
    n = n if n is not None else r.choice([3, 8, 15, 30, 60])
    mode = 'cliffordT' if cliffT else r.choice(['mix', 'cliffordT', 'clifford', 'wild'])
    names = [x for x in names if nq > 1 or x not in ('CNOT', 'CZ')]
    w = [r.choice([.2, 1, 3]) for _ in names]
    c = Circuit(nq)
    while len(c.gates) < n:
        x = r.random()
        t = r.randrange(nq)
        if x < .12 and nq > 1:
            a, b = r.sample(range(nq), 2)
            c.gates += [G.CNOT(a, b), G.CNOT(b, a)]
        elif x < .2:
            c.gates += [G.HAD(t), G.ZPhase(t, Fraction(r.choice([1, 3]), 2)), G.HAD(t)]
        elif x < .3 and c.gates:
            c.gates.append(c.gates[-r.randrange(1, min(len(c.gates), 5) + 1)].copy())
        else:
            g = gen.gate(r, nq, [r.choices(names, w)[0]], mode)
            c.add_gate(g)
    return c


def pairs(c):
    return {frozenset((g.control, g.target)) for g in c.gates if type(g).__name__ in ('CNOT', 'CZ')}


def tc(c):
    return sum(1 for g in c.gates if hasattr(g, 'phase') and (Fraction(g.phase) * 2).denominator != 1)


def unchanged(case, c, before):
    case.check(key(c) == before, "mutated", "the optimiser changed its argument")
    case.see("argument_unchanged")


def key(c):
    return [(type(g).__name__, g.target, getattr(g, 'control', None), getattr(g, 'phase', None), getattr(g, 'adjoint', None)) for g in c.gates]


def judge(case, what, c, u, d, k0, t=True):
    case.check(d.qubits == c.qubits, what + ":qubits", "number of qubits")
    case.check(same(u, gref.circ(d)), what, lambda: "%s of %s gives %s" % (what, gen.show_circ(c), gen.show_circ(d)))
    unchanged(case, c, k0)
    if t:
        case.check(tc(d) <= tc(c), what + ":tcount", lambda: "%s raised the number of non-Clifford phases from %d to %d: %s" % (what, tc(c), tc(d), gen.show_circ(c)))
        if tc(d) < tc(c):
            case.see("t_reduced")
    if len(d.gates) < len(c.gates):
        case.see("optimized_smaller")
    if len(c.gates) > 2:
        case.note(what, gen.show_circ(c))


def k_basic(case):
    r = case.rng
    c = circ(case)
    u = gref.circ(c)
    k0 = key(c)
    sw, q = r.random() < .6, r.random() < .95
    with contextlib.redirect_stdout(io.StringIO()):
        d = basic_optimization(c, do_swaps=sw, quiet=q)
    judge(case, "basic_optimization" + ("" if sw else "(do_swaps=False)"), c, u, d, k0)
    case.see("basic" if sw else "basic_noswaps")
    if not sw:
        case.check(pairs(d) <= pairs(c), "basic:connectivity", lambda: "two-qubit gates on pairs %s that the circuit %s does not use" % (sorted(map(sorted, pairs(d) - pairs(c))), gen.show_circ(c)))
        if pairs(d):
            case.see("connectivity")
    if r.random() < .2:
        o = Optimizer(c)
        d, corr = o.parse_circuit(separate_correction=True)
        case.check({type(g).__name__ for g in corr} <= {'NOT', 'SWAP', 'Z'}, "correction:gates", "correction has other gates than NOT, Z and SWAP")
        e = d.copy()
        e.gates = d.gates + list(corr)
        judge(case, "parse_circuit(separate_correction)", c, u, e, k0)
        case.see("correction")
    if r.random() < .05:
        bad = circ(case, n=5)
        bad.add_gate(gen.gate(r, bad.qubits, ['XPhase', 'SX', 'YPhase'], 'mix'))
        try:
            basic_optimization(bad)
        except TypeError:
            case.see("refused")
        else:
            case.fail("basic:refuse", "an unsupported gate was accepted: %s" % gen.show_circ(bad))
    case.sample(gen.show_circ(c))


def k_block(case):
    r = case.rng
    c = circ(case, names=['T', 'S', 'Z', 'ZPhase', 'HAD', 'CNOT', 'CZ'] + ['NOT'] * (r.random() < .5), nq=r.choice([1, 2, 3, 3, 4, 4, 5]), n=r.choice([5, 15, 30]), cliffT=True)
    pre = r.random() < .6
    if not pre:
        c.gates = [g for g in c.gates if type(g).__name__ != 'NOT']
    u = gref.circ(c)
    k0 = key(c)
    d = phase_block_optimize(c, pre_optimize=pre)
    judge(case, "phase_block_optimize(pre_optimize=%s)" % pre, c, u, d, k0)
    case.see("phase_block" if pre else "phase_block_plain")
    if r.random() < .1:
        bad = c.copy()
        bad.gates.append(G.ZPhase(0, Fraction(1, r.choice([3, 5, 8, 16]))))
        try:
            phase_block_optimize(bad)
        except TypeError:
            case.see("refused")
        else:
            case.fail("phase_block:refuse", "a phase that is not a multiple of pi/4 was accepted: %s" % gen.show_circ(bad))


def k_full(case):
    r = case.rng
    c = gen.circuit(r, nq=r.choice([1, 2, 3, 3, 4]), ngates=r.choice([5, 12, 25]), names=['T', 'S', 'Z', 'HAD', 'CNOT', 'CZ', 'NOT', 'ZPhase', 'CCZ', 'Tof', 'SWAP', 'CY', 'ParityPhase', 'XCX'] + (['SX', 'Y', 'XPhase'] if r.random() < .1 else []), mode='cliffordT')
    u = gref.circ(c)
    k0 = [mon.gate_key(g) for g in c.gates]
    try:
        d = full_optimize(c)
    except TypeError as e:
        if any(isinstance(g, G.XPhase) and not isinstance(g, G.NOT) for g in c.to_basic_gates().gates):
            case.see("refused")
            raise Skip("X rotations are documented as unsupported")
        if any((Fraction(g.phase) * 4).denominator != 1 for g in c.to_basic_gates().gates if hasattr(g, 'phase')):
            raise Skip("not Clifford+T")
        raise
    case.check(same(u, gref.circ(d)), "full_optimize", lambda: "full_optimize of %s gives %s" % (gen.show_circ(c), gen.show_circ(d)))
    case.check([mon.gate_key(g) for g in c.gates] == k0, "mutated", "full_optimize changed its argument")
    case.check(tc(d) <= tc(c.to_basic_gates()), "full_optimize:tcount", lambda: "full_optimize raised the T-count: %s" % gen.show_circ(c))
    case.see("full")
    if len(c.gates) > 2:
        case.note('full', gen.show_circ(c))


def cubic(m, n):
    """Coefficients of the multilinear form of sum over columns of the parity, modulo 8 (linear), 8 (quadratic), 8 (cubic)."""
    f = np.zeros(2 ** n, dtype=int)
    for col in m:
        for x in range(2 ** n):
            f[x] += sum(col[i] for i in range(n) if x >> i & 1) % 2
    for i in range(n):
        for x in range(2 ** n):
            if x >> i & 1:
                f[x] -= f[x ^ (1 << i)]
    return f % 8


def k_todd(case):
    """todd_iter keeps the phase polynomial up to Clifford; todd_simp keeps the circuit."""
    r = case.rng
    n = r.randrange(1, 6)
    k = r.randrange(1, 16)
    cols = [[int(r.random() < .5) for _ in range(n)] for _ in range(k)]
    m = Mat2([c.copy() for c in cols]).transpose()
    out = todd_iter(m.copy())
    oc = out.transpose().data if out.rows() and out.cols() else []
    d = (cubic(cols, n) - cubic(oc, n)) % 8
    ok = all(d[x] % 2 == 0 and (bin(x).count('1') < 2 or d[x] % 4 == 0) and (bin(x).count('1') < 3 or d[x] == 0) for x in range(2 ** n))
    case.check(ok, "todd_iter", lambda: "todd_iter of columns %s gives %s: they do not differ by a Clifford" % (cols, oc))
    case.check(len(oc) <= k, "todd_iter:count", "TODD added terms")
    case.see("todd_iter")
    dup = len({tuple(c) for c in cols if any(c)})
    if len(oc) < sum(1 for c in {tuple(c) for c in cols if any(c)} if sum(1 for e in cols if tuple(e) == c) % 2):
        case.see("todd_reduced")
    case.note(cols)
    # a CNOT + phase + CZ circuit
    nq = r.randrange(2, 6)
    gates = []
    for _ in range(r.randrange(1, 40)):
        x = r.random()
        a, b = r.sample(range(nq), 2)
        gates.append(G.CNOT(a, b) if x < .5 else G.CZ(a, b) if x < .6 else G.ZPhase(a, Fraction(r.randrange(-8, 9), 4)) if x < .7 else r.choice([G.T, G.S])(a, adjoint=r.random() < .3) if x < .95 else G.Z(a))
    c = Circuit(nq)
    c.gates = gates
    u = gref.circ(c)
    ng, perm = todd_simp([g.copy() for g in gates], nq)
    e = Circuit(nq)
    e.gates = ng
    for a, b in zx.extract.permutation_as_swaps(perm):
        e.gates.append(G.SWAP(a, b))
    case.check(same(u, gref.circ(e)), "todd_simp", lambda: "todd_simp of %s gives %s" % (gen.show_circ(c), gen.show_circ(e)))
    case.check(tc(e) <= tc(c), "todd_simp:tcount", "todd_simp raised the T-count")
    case.see("todd_simp")
    case.note(gen.show_circ(c))


def k_parity(case):
    r = case.rng
    n = r.randrange(1, 7)
    S = [[int(r.random() < r.choice([.3, .5, .8])) for _ in range(n)] for _ in range(r.randrange(0, 12))]
    S = [s for s in S if sum(s) > 1]
    cn = parity_network(n, [s.copy() for s in S])
    rows = [1 << i for i in range(n)]
    seen = set(rows)
    for g in cn:
        case.check(type(g).__name__ == 'CNOT' and g.control != g.target and 0 <= g.control < n and 0 <= g.target < n, "parity_network:gates", "gate %s" % g)
        rows[g.target] ^= rows[g.control]
        seen.add(rows[g.target])
    miss = [s for s in S if sum(1 << i for i in range(n) if s[i]) not in seen]
    case.check(not miss, "parity_network", lambda: "parities %s of %s never appear in %s" % (miss, S, [(g.control, g.target) for g in cn]))
    case.see("parity_network")
    case.note(S)


def k_graph(case):
    """todd_on_graph keeps the linear map up to a scalar."""
    r = case.rng
    c = gen.circuit(r, nq=r.choice([2, 3, 4]), ngates=r.choice([10, 20, 40]), names=['T', 'S', 'HAD', 'CNOT', 'CZ', 'CCZ', 'ParityPhase'] if r.random() < .5 else ['CNOT', 'T', 'CNOT', 'ParityPhase', 'HAD', 'CCZ'], mode='cliffordT')
    g = c.to_graph()
    S.full_reduce(g, quiet=True)
    if g.num_vertices() > 34:
        raise Skip("too large")
    before = ref.matrix(g)
    t0 = sum(1 for v in g.vertices() if (Fraction(g.phase(v)) * 2).denominator != 1)
    sig = gen.show(g)
    with contextlib.redirect_stdout(io.StringIO()) as f:
        todd_on_graph(g)
    mon.preserved(case, "todd_on_graph", before, g, exact=False)
    t1 = sum(1 for v in g.vertices() if (Fraction(g.phase(v)) * 2).denominator != 1)
    case.check(t1 <= t0, "todd_on_graph:tcount", lambda: "T-count raised from %d to %d: %s" % (t0, t1, sig))
    if not f.getvalue():
        case.see("todd_on_graph")
        case.note(sig)


TOPT = [sys.executable, '-I', '-S', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'bin', 'standin_topt.py')]


def k_topt(case):
    """The optimisers with settings.topt_command pointing to a program that does what TOpt does."""
    r = case.rng
    c = circ(case, n=r.choice([8, 15, 30]), nq=r.choice([2, 3, 4]), cliffT=True)
    u = gref.circ(c)
    zx.settings.topt_command = list(TOPT)
    try:
        d = r.choice([phase_block_optimize, full_optimize])(c)
    finally:
        zx.settings.topt_command = None
    case.check(same(u, gref.circ(d)), "topt", lambda: "with an external TOpt %s gives %s" % (gen.show_circ(c), gen.show_circ(d)))
    case.check(tc(d) <= tc(c), "topt:tcount", lambda: "T-count raised: %s" % gen.show_circ(c))
    case.see("topt")
    case.note(gen.show_circ(c), 'topt')


def k_wide(case):
    """Many qubits, compared on a random product state."""
    r = case.rng
    n = r.randrange(7, 13)
    which = r.choice(['basic', 'basic', 'block', 'full', 'todd', 'parity'])
    if which == 'parity':
        S = [[int(r.random() < r.choice([.2, .5])) for _ in range(n)] for _ in range(r.randrange(2, 20))]
        S = [s for s in S if sum(s) > 1]
        cn = parity_network(n, [s.copy() for s in S])
        rows = [1 << i for i in range(n)]
        seen = set(rows)
        for g in cn:
            rows[g.target] ^= rows[g.control]
            seen.add(rows[g.target])
        miss = [s for s in S if sum(1 << i for i in range(n) if s[i]) not in seen]
        case.check(not miss, "parity_network", lambda: "parities %s of %s never appear in %s" % (miss, S, [(g.control, g.target) for g in cn]))
        return
    ins = wide.vecs(r, n)
    if which == 'todd':
        gates = []
        for _ in range(r.randrange(10, 60)):
            x = r.random()
            a, b = r.sample(range(n), 2)
            gates.append(G.CNOT(a, b) if x < .5 else G.CZ(a, b) if x < .6 else G.ZPhase(a, Fraction(r.randrange(-8, 9), 4)))
        c = Circuit(n)
        c.gates = gates
        ng, perm = todd_simp([g.copy() for g in gates], n)
        d = Circuit(n)
        d.gates = list(ng) + [G.SWAP(a, b) for a, b in zx.extract.permutation_as_swaps(perm)]
    else:
        c = circ(case, names=OPT if which != 'full' else ['T', 'CNOT', 'CZ', 'HAD', 'S', 'NOT'], nq=n, n=r.choice([20, 50, 100]), cliffT=which != 'basic')
        k0 = key(c)
        sw = r.random() < .6
        d = basic_optimization(c, do_swaps=sw) if which == 'basic' else phase_block_optimize(c) if which == 'block' else full_optimize(c)
        unchanged(case, c, k0)
        if which == 'basic' and not sw:
            case.check(pairs(d) <= pairs(c), "basic:connectivity", lambda: "two-qubit gates on pairs %s that the circuit %s does not use" % (sorted(map(sorted, pairs(d) - pairs(c))), gen.show_circ(c)))
    case.check(d.qubits == n, which + ":qubits", "number of qubits")
    case.check(same(wide.state(c.gates, ins), wide.state(d.gates, ins)), "wide:" + which, lambda: "%s of %s gives %s" % (which, gen.show_circ(c), gen.show_circ(d)))
    case.check(tc(d) <= tc(c), which + ":tcount", lambda: "%s raised the number of non-Clifford phases from %d to %d: %s" % (which, tc(c), tc(d), gen.show_circ(c)))
    case.see("wide:" + which)
    case.note(gen.show_circ(c), which, 'wide')


KINDS = {'basic': (k_basic, 9000, 90000), 'block': (k_block, 2200, 20000), 'full': (k_full, 1300, 12000), 'todd': (k_todd, 1500, 10000), 'parity': (k_parity, 3000, 20000), 'graph': (k_graph, 1500, 10000), 'topt': (k_topt, 300, 2000), 'wide': (k_wide, 1200, 10000)}
