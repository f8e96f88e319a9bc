"""P23: generalised flows are real, maximally delayed and found whenever they exist; measurement patterns denote what they prepare and measure."""
from fractions import Fraction
import itertools
import numpy as np
from .. import gen, ref, gref, mon
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S, mbqc
from pyzx.gflow import gflow
from pyzx.utils import VertexType, EdgeType
from pyzx.graph import Graph

RULE = ("open graphs (random graph-like diagrams, cluster states, diagrams of circuits before and after simplification) x gflow; grids x inputs x sequences of measurements and Paulis; "
        "non-trivial when the graph has an edge; distinct by graph or pattern")
ASSUMPTIONS = ["all spiders are measured in the XY plane, discarded spiders count as outputs, wires to boundaries are part of the open graph as pyzx.gflow defines them",
               "patterns are compared up to a nonzero scalar"]
NEED = ["flow", "no_flow", "deep", "inputs", "grounds", "circuit_flow", "reduced_flow", "exhaustive", "multigraph", "cluster", "cluster_inputs", "measured", "pauli", "pauli_twice", "refused", "deterministic", "large", "large_circuit"]


def layers(adj, outs, forbidden):
    """Own maximally delayed layering: layer[v] for all correctable vertices; adj: vertex -> set"""
    layer = {v: 0 for v in outs}
    k = 0
    while True:
        k += 1
        done = set(layer)
        cols = [v for v in done - forbidden]
        rest = [v for v in adj if v not in done]
        pos = {v: i for i, v in enumerate(rest)}
        # span of the columns restricted to rest: u is correctable iff e_u is in the span
        basis = {}
        for c in cols:
            x = 0
            for w in adj[c]:
                if w in pos:
                    x |= 1 << pos[w]
            while x:
                h = x.bit_length() - 1
                if h not in basis:
                    basis[h] = x
                    break
                x ^= basis[h]
        new = []
        for u in rest:
            x = 1 << pos[u]
            while x:
                h = x.bit_length() - 1
                if h not in basis:
                    break
                x ^= basis[h]
            if x == 0:
                new.append(u)
        if not new:
            return layer
        for u in new:
            layer[u] = k


def judge(case, g, what):
    s0 = mon.snapshot(g)
    sig = gen.show(g) + (" grounds%s" % sorted(g.grounds()) if g.grounds() else "")
    res = gflow(g)
    case.check(mon.snapshot(g) == s0, "argument", lambda: "gflow changed its argument %s" % sig)
    adj = {v: set() for v in g.vertices()}
    for e in g.edges():
        a, b = g.edge_st(e)
        adj[a].add(b)
        adj[b].add(a)
    outs = set(g.outputs()) | set(g.grounds())
    bnd = {i for i in g.inputs() if int(g.type(i)) == 0}
    pin = set(w for i in bnd for w in adj[i]) | (set(g.inputs()) - bnd)
    want = layers(adj, outs, pin)
    left = set(adj) - set(want)
    exists = left == bnd - pin
    case.see("flow" if exists else "no_flow")
    if g.inputs():
        case.see("inputs")
    if g.grounds():
        case.see("grounds")
    if res is None:
        case.check(not exists, "missed", lambda: "gflow of %s is None (%s), but one exists with layers %s" % (sig, what, want))
    else:
        l, f, k = res
        case.check(exists, "invented", lambda: "gflow of %s is %s (%s), but none exists" % (sig, f, what))
        case.check(l == want, "layers", lambda: "gflow of %s has layers %s, maximally delayed are %s" % (sig, l, want))
        case.check(set(f) == set(want) - outs, "domain", lambda: "gflow of %s corrects %s" % (sig, sorted(f)))
        case.check(k == max(list(want.values()) + [0]) + 1, "depth", lambda: "gflow of %s has depth %s with layers %s" % (sig, k, want))
        if k > 3:
            case.see("deep")
        for u in f:
            odd = set()
            for v in f[u]:
                odd ^= adj[v]
            case.see("corrections")
            case.check(bool(f[u]) and all(l.get(v, 10 ** 9) < l[u] and v not in pin for v in f[u]), "order", lambda: "gflow of %s: g(%s) = %s with layers %s" % (sig, u, f[u], l))
            case.check({w for w in odd if l.get(w, 10 ** 9) >= l[u]} == {u}, "odd-neighbourhood", lambda: "gflow of %s: g(%s) = %s has odd neighbourhood %s, layers %s" % (sig, u, f[u], odd, l))
    if g.num_edges():
        case.note(what, sig)
    return exists


def k_random(case):
    r = case.rng
    be = 'multigraph' if r.random() < .15 else 'simple'
    x = r.random()
    if x < .25:
        g = gen.graphlike(r, n_in=r.randrange(3), n_out=r.randrange(4), n=r.randrange(1, 9), gadgets=r.randrange(3), p=r.choice([None, .2, .5]), backend=be)
    else:
        # open graphs: many outputs, sparse, few inputs, so that flows are neither trivial nor absent
        g = Graph(be)
        n = r.randrange(2, 13 if x < .9 else 22)
        if r.random() < .03:
            n = r.randrange(25, 70)
            case.see("large")
        vs = [g.add_vertex(VertexType.Z, phase=gen.phase(r, 'mix')) for _ in range(n)]
        p = r.choice([.15, .25, .4, .6]) if n < 25 else r.choice([.03, .08])
        chain = r.random() < .6
        if chain:
            k = r.randrange(1, 5) if n < 25 else r.randrange(1, 9)
            for i in range(n - k):
                g.add_edge((vs[i], vs[i + k]), EdgeType.HADAMARD)
        for a, b in itertools.combinations(vs, 2):
            if not g.connected(a, b) and r.random() < (p / 3 if chain else p):
                g.add_edge((a, b), EdgeType.HADAMARD)
        nout = r.randrange(0, n // 2 + 2)
        outs, ins = [], []
        for v in (vs[max(0, n - nout):] if chain and r.random() < .8 else r.sample(vs, min(nout, n))):
            o = g.add_vertex(VertexType.BOUNDARY)
            g.add_edge((v, o), r.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
            outs.append(o)
        nin = r.randrange(0, len(outs) + 2) if r.random() < .6 else 0
        for v in (vs[:nin] if chain and r.random() < .8 else r.sample(vs, min(nin, n))):
            i = g.add_vertex(VertexType.BOUNDARY)
            g.add_edge((i, v), r.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
            ins.append(i)
        if r.random() < .1:
            a, b = g.add_vertex(VertexType.BOUNDARY), g.add_vertex(VertexType.BOUNDARY)
            g.add_edge((a, b), r.choice([EdgeType.SIMPLE, EdgeType.HADAMARD]))
            ins.append(a)
            outs.append(b)
        g.set_inputs(tuple(ins))
        g.set_outputs(tuple(outs))
        if r.random() < .2:
            for v in vs:
                if r.random() < .3:
                    g.set_ground(v)
    if be == 'multigraph':
        case.see("multigraph")
    if r.random() < .25:
        # other vertex numbers: the order of the vertices must not matter
        h = g.copy() if be == 'simple' else g.clone()
        judge(case, h, 'copy')
    judge(case, g, 'random')


def k_small(case):
    """All open graphs on a few vertices, by brute force over all correction sets"""
    r = case.rng
    n = r.randrange(1, 5)
    g = Graph()
    vs = [g.add_vertex(VertexType.Z) for _ in range(n)]
    bits = r.getrandbits(n * (n - 1) // 2)
    for i, (a, b) in enumerate(itertools.combinations(vs, 2)):
        if bits >> i & 1:
            g.add_edge((a, b), EdgeType.HADAMARD)
    outs = [v for v in vs if r.random() < .5]
    ins = [v for v in vs if r.random() < .3]
    bo, bi = [], []
    for v in outs:
        o = g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((v, o))
        bo.append(o)
    for v in ins:
        i = g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((i, v))
        bi.append(i)
    g.set_inputs(tuple(bi))
    g.set_outputs(tuple(bo))
    exists = judge(case, g, 'small')
    # existence from the definition: some order of the non-outputs and correction sets with the gflow conditions
    adj = {v: set(g.neighbors(v)) for v in g.vertices()}
    todo = [v for v in g.vertices() if v not in bo and v not in bi]
    free = [v for v in g.vertices() if v not in bi and v not in ins]
    found = False
    for order in itertools.permutations(todo):
        rank = {v: i for i, v in enumerate(order)}
        ok = True
        for u in order:
            later = [v for v in free if v in bo or rank.get(v, -1) > rank[u]]
            good = False
            for k in range(1 << len(later)):
                odd = set()
                for i, v in enumerate(later):
                    if k >> i & 1:
                        odd ^= adj[v]
                if u in odd and all(w == u or rank.get(w, 99) > rank[u] for w in odd if w not in bi):
                    good = True
                    break
            if not good:
                ok = False
                break
        if ok:
            found = True
            break
    case.see("exhaustive")
    case.check(found == exists, "oracle", lambda: "oracles disagree on %s: %s %s" % (gen.show(g), found, exists))


def k_circuit(case):
    """Diagrams of circuits have gflow, and Clifford simplification keeps it"""
    r = case.rng
    large = r.random() < .04
    c = gen.circuit(r, nq=r.randrange(8, 14) if large else r.randrange(1, 6), ngates=r.randrange(60, 120) if large else r.randrange(0, 25), mode=r.choice(['cliffordT', 'clifford', 'mix']))
    if large:
        case.see("large_circuit")
    g = c.to_graph()
    S.to_graph_like(g) if r.random() < .8 else (S.spider_simp(g, quiet=True), S.to_graph_like(g))
    case.check(judge(case, g, 'circuit'), "circuit-without-flow", lambda: "the graph-like diagram of %s has no gflow: %s" % (gen.show_circ(c), gen.show(g)))
    case.see("circuit_flow")
    sig = gen.show(g)
    how = r.choice(['interior_clifford_simp', 'id_simp', 'lcomp_simp', 'pivot_simp'] + (['clifford_simp'] * 2 if all(p.denominator <= 2 for p in g.phases().values()) else []))  # clifford_simp makes gadgets (YZ plane) of other phases
    if how in ('id_simp',):
        S.id_simp(g, quiet=True)
        S.spider_simp(g, quiet=True)
        S.to_graph_like(g)
    else:
        getattr(S, how)(g, quiet=True)
    case.check(judge(case, g, how), "flow-lost:" + how, lambda: "%s of %s loses the gflow: %s" % (how, sig, gen.show(g)))
    case.see("reduced_flow")


# ---------------------------------------------------------------- patterns
X = np.array([[0, 1], [1, 0]], dtype=complex)
Z = np.diag([1, -1]).astype(complex)


def on(m, q, n):
    return np.kron(np.kron(np.eye(2 ** q), m), np.eye(2 ** (n - q - 1)))


def k_pattern(case):
    r = case.rng
    m, n = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (3, 1), (2, 3), (3, 2), (1, 5), (1, 6)])
    N = m * n
    cells = [(q, c) for q in range(m) for c in range(n)]
    ins = sorted(r.sample(cells, r.randrange(0, min(3, N + 1)))) if r.random() < .6 else []
    given = list(ins)
    r.shuffle(given)
    g = mbqc.cluster_state(m, n, given) if given or r.random() < .5 else mbqc.cluster_state(m, n)
    sig = "cluster_state(%s,%s,%s)" % (m, n, given)
    case.see("cluster")
    if ins:
        case.see("cluster_inputs")
    plus = np.array([[1], [1]]) / 2 ** .5
    t = np.eye(1)
    for c in cells:
        t = np.kron(t, np.eye(2) if c in ins else plus)
    idx = {c: i for i, c in enumerate(cells)}
    for (q, c) in cells:
        for o in ((q + 1, c), (q, c + 1)):
            if o in idx:
                a, b = idx[(q, c)], idx[o]
                d = np.array([-1 if (x >> (N - 1 - a)) & 1 and (x >> (N - 1 - b)) & 1 else 1 for x in range(2 ** N)])
                t = d[:, None] * t
    left = list(cells)
    ops = []
    twice = set()
    pauli = {}
    for _ in range(r.randrange(0, 2 * N + 2)):
        pos = r.choice(left) if left and r.random() < .9 else r.choice(cells + [(m, 0), (0, n), (-1, 0)])
        x = r.random()
        if x < .6 and len(left) > 0:
            ty = r.choice([VertexType.Z, VertexType.Z, VertexType.X])
            ph = r.choice([0, 1, Fraction(1, 2), Fraction(3, 2), gen.phase(r, 'mix'), gen.phase(r, 'wild'), 0.25])
            ops.append("measure(%s,%s,%s)" % (pos, ty, ph))
            before = mon.snapshot(g)
            try:
                if ty == VertexType.Z and ph == 0 and r.random() < .5:
                    mbqc.measure(g, pos)
                else:
                    mbqc.measure(g, pos, ty, ph) if r.random() < .6 else mbqc.measure(g, pos, t=ty, phase=ph)
            except ValueError:
                case.check(pos not in left, "measure:refused", lambda: "%s; %s is refused" % (sig, ops))
                case.check(mon.snapshot(g) == before, "measure:changed", lambda: "%s; %s is refused but changes the diagram" % (sig, ops))
                case.see("refused")
                continue
            case.check(pos in left, "measure:accepted", lambda: "%s; %s is accepted" % (sig, ops))
            i, k = left.index(pos), len(left)
            e = ref.ephase(Fraction(ph))
            eff = np.array([[1, e]]) if ty == VertexType.Z else np.array([[1 + e, 1 - e]]) / 2 ** .5
            t = np.kron(np.kron(np.eye(2 ** i), eff), np.eye(2 ** (k - i - 1))) @ t
            left.remove(pos)
            case.see("measured")
        else:
            ty = r.choice([VertexType.Z, VertexType.X])
            ph = r.choice([1, 1, 1, 1, 0, Fraction(1, 2)])
            ops.append("apply_pauli(%s,%s,%s)" % (pos, ty, ph))
            try:
                if ph == 1 and ty == VertexType.Z and r.random() < .5:
                    mbqc.apply_pauli(g, pos)
                else:
                    mbqc.apply_pauli(g, pos, ty, ph)
            except ValueError:
                case.check(pos not in left or ph == Fraction(1, 2), "pauli:refused", lambda: "%s; %s is refused" % (sig, ops))
                case.see("refused")
                continue
            case.check(ph == 0 or (pos in left and ph == 1), "pauli:accepted", lambda: "%s; %s is accepted" % (sig, ops))
            if ph == 1:
                t = on(Z if ty == VertexType.Z else X, left.index(pos), len(left)) @ t
                case.see("pauli")
                pauli.setdefault(pos, set()).add(int(ty))
                if len(pauli[pos]) == 2:
                    case.see("pauli_twice")
    case.check(len(g.outputs()) == len(left) and len(g.inputs()) == len(ins), "boundary", lambda: "%s; %s has boundaries %s %s" % (sig, ops, g.inputs(), g.outputs()))
    got = ref.matrix(g)
    case.check(got.shape == t.shape and (ref.close_up_to_scalar(t, got)[0] or np.abs(t).max() < 1e-9 and np.abs(got).max() < 1e-9), "map", lambda: "%s; %s denotes another map: %s: %s" % (sig, ops, gen.show(g), ref.describe(t, got)))
    case.note("pattern", sig, tuple(ops))


def k_deterministic(case):
    """Correcting according to the flow makes all outcomes of a pattern equal"""
    r = case.rng
    n = r.randrange(2, 7)
    g = Graph()
    vs = [g.add_vertex(VertexType.Z, phase=gen.phase(r, 'mix')) for _ in range(n)]
    for i in range(n - 1):
        g.add_edge((vs[i], vs[i + 1]), EdgeType.HADAMARD)
    for a, b in itertools.combinations(vs, 2):
        if not g.connected(a, b) and r.random() < .2:
            g.add_edge((a, b), EdgeType.HADAMARD)
    outs = []
    for v in vs[n - r.randrange(1, min(3, n) + 1):]:
        o = g.add_vertex(VertexType.BOUNDARY)
        g.add_edge((v, o), EdgeType.HADAMARD)
        outs.append(o)
    i = g.add_vertex(VertexType.BOUNDARY)
    g.add_edge((i, vs[0]))
    g.set_inputs((i,))
    g.set_outputs(tuple(outs))
    if g.num_vertices() > 14:
        raise Skip("large")
    res = gflow(g)
    judge(case, g, 'pattern')
    if res is None:
        raise Skip("no flow")
    l, f, _ = res
    want = ref.matrix(g)
    # outcome 1 of the measurement of u adds pi to its effect; it is undone by X on g(u) and Z on Odd(g(u)), which act on later measurements and outputs
    adj = {v: set(g.neighbors(v)) for v in g.vertices()}
    x, z = {v: 0 for v in adj}, {v: 0 for v in adj}
    h = g.clone()
    order = sorted(f, key=lambda u: (-l[u], r.random()))
    for u in order:
        s = r.randrange(2)
        ph = g.phase(u)
        # accumulated corrections act before the measurement: X flips the sign of the angle, Z adds pi
        h.set_phase(u, (-ph if x[u] else ph) + z[u] + s)
        if s:
            for v in f[u]:
                x[v] ^= 1
            odd = set()
            for v in f[u]:
                odd ^= adj[v]
            for w in odd:
                if w != u:
                    z[w] ^= 1
    m = ref.matrix(h)
    k = len(outs)
    for j, o in enumerate(outs):
        # the output wire is a vertex of the open graph too
        if x[o]:
            m = on(X, j, k) @ m
        if z[o]:
            m = on(Z, j, k) @ m
    case.see("deterministic")
    case.check(ref.close_up_to_scalar(want, m)[0], "deterministic", lambda: "corrections of the gflow %s do not undo the outcomes on %s" % (f, gen.show(g)))


KINDS = {'random': (k_random, 30000, 1000000), 'small': (k_small, 8000, 100000), 'circuit': (k_circuit, 8000, 200000), 'pattern': (k_pattern, 14000, 400000), 'deterministic': (k_deterministic, 10000, 300000)}
