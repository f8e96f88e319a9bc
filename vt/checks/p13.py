"""P13: architecture-aware CNOT routing."""
import contextlib
import io
import json
import os
import tempfile
import numpy as np
from .. import gen, gref, ref
from ..run import Skip
from pyzx.linalg import Mat2
from pyzx.circuit import Circuit
from pyzx.circuit import gates as G
from pyzx.graph import Graph
from pyzx.routing import architecture as A
from pyzx.routing import machine_learning as ML
from pyzx.routing.machine_learning import GeneticAlgorithm, ParticleSwarmOptimization
from pyzx.routing import ElimMode, CostMetric, FitnessFunction, gauss, permuted_gauss, sequential_gauss, steiner_gauss, rec_steiner_gauss, Architecture, CNOT_tracker, Parity, create_architecture, architectures

ML.cpu_count = lambda: 1  # particle swarm in this process, not in a pool of further processes

RULE = "random invertible matrices x architectures (named, generated, random connected coupling graphs) x elimination modes; non-trivial when there are at least 3 qubits and 2 CNOTs; distinct by (matrix, coupling graph, mode)"
ASSUMPTIONS = ["the coupling graph is connected and qubits are placed along a depth-first tree, by the architecture itself or by the caller", "genetic modes use a population of at least 4 and at least 2 qubits", "matrices to be routed are invertible"]
OPS = ['steiner', 'steiner_perm', 'rec_steiner', 'steiner_nonrec', 'upper', 'gauss_mode', 'genetic_steiner', 'genetic_gauss', 'permuted', 'permuted_fixed', 'fitness', 'sequential', 'pso', 'x_tracker',
       'named', 'dynamic', 'random', 'hamiltonian', 'no_hamiltonian_labels', 'distances', 'distances_down', 'shortest_path', 'no_path', 'non_cutting', 'neighbours', 'arities', 'steiner_tree', 'rec_steiner_tree', 'reduce_order',
       'tracker_rows', 'tracker_cols', 'tracker_gates', 'tracker_prepend', 'tracker_from_circuit', 'tracker_depth', 'tracker_qasm', 'parity', 'given_map', 'shape', 'device',
       'density', 'search_genetic', 'search_genetic_max', 'search_genetic_order', 'search_genetic_partial', 'search_genetic_continued', 'search_swarm', 'search_swarm_max', 'search_pool']
NEED = ["op:" + o for o in OPS] + ["arch:" + a for a in architectures]


def coupling(r, n):
    """A connected graph on n vertices as a set of pairs: trees, near-paths, cliques with tails, sparse and dense."""
    order = list(range(n))
    r.shuffle(order)
    m = set()
    shape = r.choice(['tree', 'path', 'star', 'mix'])
    for i in range(1, n):
        j = i - 1 if shape == 'path' else 0 if shape == 'star' else r.randrange(max(0, i - 3), i) if shape == 'mix' else r.randrange(i)
        m.add((order[i], order[j]))
    p = r.choice([0, 0, .1, .3, .6, 1])
    for i in range(n):
        for j in range(i):
            if r.random() < p and (j, i) not in m:
                m.add((i, j))
    return {(max(e), min(e)) for e in m}


def rand_arch(r, n):
    m = np.zeros((n, n), dtype=int)
    for i, j in coupling(r, n):
        m[i, j] = m[j, i] = 1
    kw = {}
    if r.random() < .3:
        # the caller places the qubits: numbered from the leaves of some depth-first tree to its root, as pyzx does by itself
        nb = [[j for j in range(n) if m[i, j]] for i in range(n)]
        seen, done = set(), []

        def visit(i):
            seen.add(i)
            for j in r.sample(nb[i], len(nb[i])):
                if j not in seen:
                    visit(j)
            done.append(i)
        visit(r.randrange(n))
        kw['qubit_map'] = done
        if r.random() < .3:
            kw['reduce_order'] = list(Architecture('r', coupling_matrix=m, qubit_map=done).reduce_order)
    if r.random() < .5:
        return Architecture('r', coupling_matrix=m, **kw)
    g = Graph()
    vs = list(g.add_vertices(n))
    g.add_edges([(vs[i], vs[j]) for i in range(n) for j in range(i) if m[i, j]])
    return Architecture('r', coupling_graph=g, **kw)


def dyn(r, name, n):
    if name == A.SQUARE:
        n = r.choice([4, 9])
    kw = {}
    if name == A.DENSITY:
        kw['density_prob'] = r.choice([.1, .4, .8])
        n = max(n, 2)
    return create_architecture(name, n_qubits=n, **kw)


def arch(case, big=False):
    r = case.rng
    x = r.random()
    if x < .6:
        case.see("op:random")
        return rand_arch(r, r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10] if not big else [4, 6, 8, 12, 16]))
    if x < .8:
        name = r.choice(A.dynamic_size_architectures)
        case.see("op:dynamic")
        case.see("arch:" + name)
        return dyn(r, name, r.choice([2, 3, 4, 5, 6, 7, 8]))
    name = r.choice([a for a in architectures if a not in A.dynamic_size_architectures and (big or a not in (A.GOOGLE_SYCAMORE, A.IBM_ROCHESTER)) and (big or r.random() < .3 or a in (A.IBM_QX2, A.IBM_QX4, A.REC_ARCH, A.RIGETTI_8Q_AGAVE))] or [A.IBM_QX2])
    case.see("op:named")
    case.see("arch:" + name)
    return create_architecture(name)


def links(a):
    """Coupled qubit pairs, from the coupling graph."""
    q = {v: i for i, v in enumerate(a.qubit_map)}
    return {frozenset((q[s], q[t])) for s, t in (a.graph.edge_st(e) for e in a.graph.edges())}


def invertible(r, n):
    m = [[int(i == j) for j in range(n)] for i in range(n)]
    k = r.choice([0, 1, 2, n, 3 * n, 5 * n])
    for _ in range(k):
        if n > 1:
            i, j = r.sample(range(n), 2)
            m[i] = [x ^ y for x, y in zip(m[i], m[j])]
    if r.random() < .3:
        r.shuffle(m)
    return m


def ident(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def run(gates, n):
    rows = [1 << i for i in range(n)]
    for g in gates:
        rows[g.target] ^= rows[g.control]
    return [[x >> j & 1 for j in range(n)] for x in rows]


def judge(case, what, c, m, a=None, sig=""):
    """The CNOT circuit of a tracker implements the matrix, on coupled pairs."""
    n = len(m)
    case.check(all(type(g) is G.CNOT and g.control != g.target and 0 <= g.control < n and 0 <= g.target < n for g in c.gates), what + ":gates", lambda: "%s: gates other than CNOTs on the qubits: %s" % (what, c.gates))
    case.check(run(c.gates, n) == m, what + ":map", lambda: "%s: the CNOTs %s do not implement %s %s" % (what, [(g.control, g.target) for g in c.gates], m, sig))
    case.check(c.matrix.data == m, what + ":tracker", lambda: "%s: the tracker reports %s for the matrix %s" % (what, c.matrix.data, m))
    if a is not None:
        l = links(a)
        bad = [(g.control, g.target) for g in c.gates if frozenset((g.control, g.target)) not in l]
        case.check(not bad, what + ":coupling", lambda: "%s: CNOTs %s are not on coupled qubits %s" % (what, bad, sig))


def show(a):
    return "qubits placed at %s, coupled pairs %s" % (a.qubit_map, sorted(map(sorted, links(a))))


def quiet(f, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = f(*args, **kw)
    return v, out.getvalue()


def k_route(case):
    r = case.rng
    a = arch(case, big=r.random() < .04)
    n = a.n_qubits
    if n > 20 and r.random() < .85:
        raise Skip("53 qubits: only now and then")
    m = invertible(r, n)
    l = links(a)
    ham = all(frozenset((i, i + 1)) in l for i in range(n - 1))
    case.see("op:hamiltonian" if ham else "op:no_hamiltonian_labels")
    mat = Mat2([x.copy() for x in m])
    y = CNOT_tracker(n)
    x = r.random()
    want = ident(n)
    kw = {}
    if r.random() < .3:
        kw['x'] = CNOT_tracker(n)
    if x < .5:
        what = 'steiner'
        (_, out) = quiet(gauss, ElimMode.STEINER_MODE, mat, architecture=a, y=y, full_reduce=True, **kw)
    elif x < .65:
        what = 'rec_steiner'
        (_, out) = quiet(rec_steiner_gauss, mat, a, full_reduce=True, y=y, **kw)
    elif x < .75:
        what = 'steiner_perm'
        p = list(range(n))
        r.shuffle(p)
        (_, out) = quiet(gauss, ElimMode.STEINER_MODE, mat, architecture=a, permutation=p, y=y, full_reduce=True, **kw)
        m = [[m[i][j] for j in p] for i in p]
    elif x < .9:
        what = 'steiner_nonrec'
        try:
            rk, out = quiet(steiner_gauss, mat, a, full_reduce=True, y=y, **kw)
        except ValueError:
            if ham:
                raise
            case.see("nonrec_refused")
            raise Skip("steiner_gauss needs every qubit reachable along decreasing labels")
        case.check(rk == n, "steiner_nonrec:rank", lambda: "rank %s of an invertible matrix" % rk)
    else:
        what = 'upper'
        (_, out) = quiet(gauss, ElimMode.STEINER_MODE, mat, architecture=a, y=y, full_reduce=False, **kw)
        case.check(all(mat.data[i][j] == int(i == j) for i in range(n) for j in range(i + 1)), "upper:form", lambda: "without full_reduce %s becomes %s which is not unit upper triangular on %s" % (m, mat.data, show(a)))
        # the recorded CNOTs turn the reduced matrix back into the original
        rows = [z.copy() for z in mat.data]
        for g in y.gates:
            rows[g.target] = [p ^ q for p, q in zip(rows[g.target], rows[g.control])]
        case.check(rows == m, "upper:record", lambda: "the recorded CNOTs do not lead from the reduced matrix %s back to %s" % (mat.data, m))
        case.check(all(frozenset((g.control, g.target)) in l for g in y.gates), "upper:coupling", lambda: "CNOTs not on coupled qubits: %s" % show(a))
        case.see("op:upper")
        return
    case.check(mat.data == want, what + ":reduced", lambda: "%s does not reduce %s to the identity but to %s; %s" % (what, m, mat.data, show(a)))
    judge(case, what, y, m, a, show(a))
    if 'x' in kw:
        inv = run(kw['x'].gates, n)
        prod = [[sum(inv[i][k] & m[k][j] for k in range(n)) % 2 for j in range(n)] for i in range(n)]
        case.check(prod == want and kw['x'].matrix.data == inv, what + ":x", lambda: "%s: the row tracker does not hold the inverse of %s" % (what, m))
        case.see("op:x_tracker")
    case.see("op:" + what)
    if n > 2 and len(y.gates) > 1:
        case.note(what, m, sorted(map(sorted, l)))
    case.sample("%s %s on %s" % (what, m, show(a)))


def perms_of(case, p, n, what):
    p = [int(v) for v in p]
    case.check(sorted(p) == list(range(n)), what + ":perm", lambda: "%s returns %s: not a permutation of %d qubits" % (what, p, n))
    return p


def small(case):
    r = case.rng
    a = rand_arch(r, r.choice([2, 3, 3, 4, 5, 6])) if r.random() < .7 else dyn(r, r.choice(A.dynamic_size_architectures), r.choice([2, 3, 4, 5]))
    return a, a.n_qubits


def k_genetic(case):
    r = case.rng
    a, n = small(case)
    m = invertible(r, n)
    steiner = r.random() < .6
    mode = ElimMode.STEINER_MODE if steiner else ElimMode.GAUSS_MODE
    opt = dict(population_size=r.randrange(4, 7), n_iterations=r.randrange(0, 3), crossover_prob=r.choice([0., .5, 1.]), mutate_prob=r.choice([0., .5, 1.]))
    x = r.random()
    keep = [v.copy() for v in m]
    mat = Mat2(m)
    if x < .45:
        row, col = r.random() < .7, r.random() < .7
        (p, c, rk), _ = quiet(permuted_gauss, mat, mode, architecture=a, row=row, col=col, **opt)
        p = perms_of(case, p, n, "permuted_gauss")
        want = [[keep[i][j] for j in (p if col else range(n))] for i in (p if row else range(n))]
        judge(case, "permuted_gauss", c, want, a if steiner else None, "(permutation %s, row=%s, col=%s)" % (p, row, col))
        case.check(list(c.row_perm) == (p if row else list(range(n))) and list(c.col_perm) == (p if col else list(range(n))), "permuted_gauss:perms", "the tracker's permutations differ from the returned one")
        case.see("op:permuted" if row or col else "op:permuted_fixed")
        if not steiner:
            case.check(rk == n, "permuted_gauss:rank", lambda: "rank %s" % rk)
    elif x < .6:
        y = CNOT_tracker(n)
        quiet(gauss, ElimMode.GENETIC_STEINER_MODE if steiner else ElimMode.GENETIC_GAUSS_MODE, mat, architecture=a, y=y, full_reduce=True, **opt)
        rp, cp = perms_of(case, y.row_perm, n, "gauss(genetic)"), perms_of(case, y.col_perm, n, "gauss(genetic)")
        judge(case, "gauss(genetic)", y, [[keep[i][j] for j in cp] for i in rp], a if steiner else None, "(permutations %s %s)" % (rp, cp))
        case.see("op:genetic_steiner" if steiner else "op:genetic_gauss")
    elif x < .8:
        metric = r.choice(list(CostMetric))
        row, col = r.random() < .7, r.random() < .7
        f = FitnessFunction(metric, mat, mode, a, row=row, col=col)
        p = list(range(n))
        r.shuffle(p)
        v, _ = quiet(f, np.array(p))
        y = CNOT_tracker(n)
        quiet(gauss, mode, Mat2([[keep[i][j] for j in (p if col else range(n))] for i in (p if row else range(n))]), architecture=a, y=y, full_reduce=True)
        count, depth = len(y.gates), asap(y.gates, n)
        want = count if metric == CostMetric.COUNT else depth if metric == CostMetric.DEPTH else depth * 10000 + count
        case.check(v == want, "fitness", lambda: "fitness %s of permutation %s is %s, the routed circuit has %d CNOTs in depth %d" % (metric, p, v, count, depth))
        case.see("op:fitness")
    else:
        y = CNOT_tracker(n)
        rk = gauss(ElimMode.GAUSS_MODE, mat, architecture=a, y=y, full_reduce=True)
        case.check(rk == n and mat.data == ident(n), "gauss_mode", "plain elimination")
        judge(case, "gauss_mode", y, keep)
        case.see("op:gauss_mode")
        return
    case.check(mat.data == keep, "mutated", "the given matrix was changed")
    if n > 2:
        case.note(str(mode), keep, sorted(map(sorted, links(a))))


def asap(gates, n):
    d = [0] * n
    for g in gates:
        d[g.control] = d[g.target] = max(d[g.control], d[g.target]) + 1
    return max(d, default=0)


def k_sequential(case):
    r = case.rng
    a, n = small(case)
    k = r.choice([1, 2, 3])
    ms = [invertible(r, n) for _ in range(k)]
    ip, op = r.random() < .6, r.random() < .6
    x = r.random()
    mode = r.choice([None, ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE]) if x < .3 else r.choice([ElimMode.GENETIC_STEINER_MODE, ElimMode.GENETIC_GAUSS_MODE]) if x < .7 else r.choice([ElimMode.PSO_STEINER_MODE, ElimMode.PSO_GAUSS_MODE])
    opt = dict(population_size=4, n_iterations=r.randrange(0, 2)) if x >= .3 else {}
    if x >= .7:
        opt.update(swarm_size=r.randrange(1, 4), n_steps=r.choice([1, 2, 2, 3, 6]), s_crossover=r.choice([0., .4, 1.]), p_crossover=r.choice([0., .3, 1.]), pso_mutation=r.choice([0., .2, 1.]))
    (cs, ps, score), _ = quiet(sequential_gauss, [Mat2([v.copy() for v in m]) for m in ms], mode=mode, architecture=a, input_perm=ip, output_perm=op, full_reduce=True, **opt)
    case.check(len(cs) == k and len(ps) == k + 1, "sequential:length", lambda: "%d circuits and %d permutations for %d matrices" % (len(cs), len(ps), k))
    ps = [perms_of(case, p, n, "sequential_gauss") for p in ps]
    steiner = 'steiner' in str(mode)
    for i, c in enumerate(cs):
        # physical qubit q holds logical qubit ps[i][q] before circuit i and ps[i+1][q] after it
        want = [[ms[i][u][v] for v in ps[i]] for u in ps[i + 1]]
        judge(case, "sequential_gauss(%s)" % mode, c, want, a if steiner else None, "(matrix %d of %d, input_perm=%s output_perm=%s, permutations %s)" % (i, k, ip, op, ps))
    idp = list(range(n))
    case.check(ip or ps[0] == idp, "sequential:input", "the input was permuted although input_perm=False")
    case.check(op or ps[-1] == idp, "sequential:output", "the output was permuted although output_perm=False")
    case.check(score == sum(asap(c.gates, n) * 10000 + len(c.gates) for c in cs), "sequential:score", lambda: "score %s for depths %s and counts %s" % (score, [asap(c.gates, n) for c in cs], [len(c.gates) for c in cs]))
    case.see("op:pso" if x >= .7 else "op:sequential")
    if n > 2:
        case.note(str(mode), ms, ip, op, sorted(map(sorted, links(a))))


def bfs(adj, s, allowed=None):
    d = {s: 0}
    todo = [s]
    for v in todo:
        for w in adj[v]:
            if w not in d and (allowed is None or w in allowed):
                d[w] = d[v] + 1
                todo.append(w)
    return d


# Published coupling maps of devices, in the numbering of their vendors; compared up to renumbering.
DEVICES = {
    A.IBM_QX2: "0-1 0-2 1-2 3-2 3-4 4-2",
    A.IBM_QX4: "1-0 2-0 2-1 3-2 3-4 4-2",
    A.IBM_QX3: "0-1 1-2 2-3 3-14 4-3 4-5 6-7 6-11 7-10 8-7 9-8 9-10 11-10 12-5 12-11 12-13 13-4 13-14 15-0 15-14",
    A.IBM_QX5: "1-0 1-2 2-3 3-4 3-14 5-4 6-5 6-7 6-11 7-10 8-7 9-8 9-10 11-10 12-5 12-11 12-13 13-4 13-14 15-0 15-2 15-14",
    A.IBM_Q20_TOKYO: "0-1 1-2 2-3 3-4 0-5 1-6 1-7 2-6 2-7 3-8 3-9 4-8 4-9 5-6 6-7 7-8 8-9 5-10 5-11 6-10 6-11 7-12 7-13 8-12 8-13 9-14 10-11 11-12 12-13 13-14 10-15 11-16 11-17 12-16 12-17 13-18 13-19 14-18 14-19 15-16 16-17 17-18 18-19",
    A.IBMQ_SINGAPORE: "0-1 1-2 2-3 3-4 1-6 3-8 5-6 6-7 7-8 8-9 5-10 7-12 9-14 10-11 11-12 12-13 13-14 11-16 13-18 15-16 16-17 17-18 18-19",
    A.RIGETTI_16Q_ASPEN: "0-1 1-2 2-3 3-4 4-5 5-6 6-7 7-0 8-9 9-10 10-11 11-12 12-13 13-14 14-15 15-8 1-14 2-13",
    A.RIGETTI_8Q_AGAVE: "0-1 1-2 2-3 3-4 4-5 5-6 6-7 7-0",
    A.RIGETTI_19Q_ACORN: "0-5 0-6 1-6 1-7 2-7 2-8 3-8 3-9 4-9 5-10 6-11 7-12 8-13 9-14 10-15 10-16 11-16 11-17 12-17 12-18 13-18 13-19 14-19",
}
DEVICES[A.IBMQ_BOEBLINGEN] = DEVICES[A.IBMQ_SINGAPORE]


def profile(adj):
    """What a coupling graph looks like from its qubits, whatever their numbers: refined three times from the distances."""
    lab = {}
    for v in adj:
        d = bfs(adj, v)
        lab[v] = tuple(sorted(d.values()))
    for _ in range(3):
        lab = {v: (lab[v], tuple(sorted(lab[w] for w in adj[v]))) for v in adj}
    return sorted(lab.values())


def k_arch(case):
    """Queries on an architecture, against breadth-first search on its coupling graph."""
    r = case.rng
    a = arch(case, big=r.random() < .05)
    n = a.n_qubits
    vs = list(a.graph.vertices())
    adj = {v: set() for v in vs}
    for e in a.graph.edges():
        s, t = a.graph.edge_st(e)
        adj[s].add(t)
        adj[t].add(s)
    case.check(n == len(vs) and len(bfs(adj, vs[0])) == n, "arch:connected", lambda: "%s is not a connected architecture" % a.name)
    case.check(sorted(a.qubit_map) == sorted(vs), "arch:placement", lambda: "qubits are placed at %s" % a.qubit_map)
    base = a.name.split('-', 1)[-1]
    shape = None
    if base == A.LINE:
        shape = {(i, i + 1) for i in range(n - 1)}
    elif base == A.CIRCLE:
        shape = {(i, i + 1) for i in range(n - 1)} | ({(0, n - 1)} if n > 1 else set())
    elif base == A.FULLY_CONNECTED:
        shape = {(i, j) for i in range(n) for j in range(i + 1, n)}
    elif base == A.SQUARE:  # a square grid, numbered in boustrophedon order
        k = int(n ** .5)
        num = {(y, x if y % 2 == 0 else k - 1 - x): y * k + x for y in range(k) for x in range(k)}
        shape = {tuple(sorted((num[y, x], num[u, v]))) for (y, x) in num for u, v in ((y + 1, x), (y, x + 1)) if (u, v) in num}
    if shape is not None:
        case.check({tuple(sorted(e)) for e in shape} == {(s, t) for s in adj for t in adj[s] if s < t}, "arch:shape", lambda: "%s has couplings %s" % (a.name, adj))
        case.see("op:shape")
    if a.name in DEVICES:
        dev = {}
        for e in DEVICES[a.name].split():
            x, y = e.split('-')
            dev.setdefault(x, set()).add(y)
            dev.setdefault(y, set()).add(x)
        case.check(profile(dev) == profile(adj), "arch:device", lambda: "%s does not have the couplings of the device: %s" % (a.name, adj))
        case.see("op:device")
    for q in range(n):
        case.check(a.vertex2qubit(a.qubit2vertex(q)) == q, "arch:placement", lambda: "qubit %d is placed at vertex %s which holds qubit %s" % (q, a.qubit2vertex(q), a.vertex2qubit(a.qubit2vertex(q))))
        case.check({a.qubit2vertex(p) for p in a.get_neighboring_qubits(q)} == adj[a.qubit2vertex(q)], "arch:neighbours", "neighbours of a qubit")
        case.check(a.get_neighboring_vertices(a.qubit2vertex(q)) == adj[a.qubit2vertex(q)], "arch:neighbours", "neighbours of a vertex")
    case.see("op:neighbours")
    ar = a.arities()
    case.check(sorted(i for i, _ in ar) == list(range(n)) and all(len(adj[vs[i]]) == k for i, k in ar) and all(ar[i][1] >= ar[i + 1][1] for i in range(n - 1)), "arch:arities", lambda: "arities %s" % ar)
    case.see("op:arities")
    # removal order: what remains is always connected
    case.check(sorted(a.reduce_order) == list(range(n)), "arch:reduce_order", lambda: "%s" % a.reduce_order)
    for i in range(n - 1):
        rest = {a.qubit2vertex(q) for q in a.reduce_order[i + 1:]}
        case.check(len(bfs(adj, next(iter(rest)), rest)) == len(rest), "arch:reduce_order", lambda: "removing qubits in the order %s disconnects the architecture %s" % (a.reduce_order, show(a)))
    case.see("op:reduce_order")
    sub = r.sample(vs, r.randrange(1, n + 1)) if r.random() < .6 else vs
    if len(sub) > 16:
        sub = sub[:16]
    # distances
    d = a.floyd_warshall(list(sub), upper=True)
    for s in sub:
        b = bfs(adj, s, set(sub))
        got = {t for (x, t) in d if x == s}
        case.check(got == set(b), "distances:reach", lambda: "distances from %s within %s on %s reach %s" % (s, sub, show(a), got))
        for t in b:
            k, path = d[(s, t)]
            ok = k == b[t] == len(path) and all(y in adj[x] and x in sub and y in sub for x, y in path) and (not path or (path[0][0] == s and path[-1][1] == t and all(path[i][1] == path[i + 1][0] for i in range(k - 1))))
            case.check(ok, "distances", lambda: "distance from %s to %s within %s is %d: got %s %s on %s" % (s, t, sub, b[t], k, path, show(a)))
    case.see("op:distances")
    rec = r.sample(sub, r.randrange(0, len(sub) + 1))
    down = {v: {w for w in adj[v] if w in sub and (a.vertex2qubit(v) > a.vertex2qubit(w) or (v in rec and w in rec))} for v in sub}
    d = a.floyd_warshall(list(sub), upper=False, rec_vertices=rec)
    for s in sub:
        b = bfs(down, s)
        got = {t: d[(x, t)] for (x, t) in d if x == s}
        case.check({t: k for t, (k, _) in got.items()} == b, "distances_down", lambda: "directed distances from %s within %s (undirected in %s) are %s, expected %s on %s" % (s, sub, rec, got, b, show(a)))
        case.check(all(len(p) == k and all(y in down[x] for x, y in p) for k, p in got.values()), "distances_down:path", "a path uses an edge upwards")
    case.see("op:distances_down")
    s, t = r.randrange(n), r.randrange(n)
    use = None if r.random() < .4 else sorted({s, t} | {q for q in range(n) if r.random() < .6})
    p = a.shortest_path(s, t, use)
    b = bfs(adj, a.qubit2vertex(s), None if use is None else {a.qubit2vertex(q) for q in use})
    if a.qubit2vertex(t) in b:
        ok = p is not None and len(p) == b[a.qubit2vertex(t)] + 1 and p[0] == a.qubit2vertex(s) and p[-1] == a.qubit2vertex(t) and all(y in adj[x] for x, y in zip(p, p[1:])) and (use is None or all(a.vertex2qubit(v) in use for v in p))
        case.check(ok, "shortest_path", lambda: "shortest_path(%d,%d,%s) is %s, the distance is %d on %s" % (s, t, use, p, b[a.qubit2vertex(t)], show(a)))
        case.see("op:shortest_path")
    else:
        case.check(p is None, "shortest_path:none", lambda: "shortest_path(%d,%d,%s) is %s on %s" % (s, t, use, p, show(a)))
        case.see("op:no_path")
    for _ in range(2):
        sb = r.sample(vs, r.randrange(1, n + 1))[:14]
        got = a.non_cutting_vertices(sb)

        def parts(x):
            x, k = set(x), 0
            while x:
                x -= set(bfs(adj, next(iter(x)), x))
                k += 1
            return k
        want = {v for v in sb if parts([w for w in sb if w != v]) <= parts(sb) - (0 if adj[v] & set(sb) else 1)}
        case.check(set(got) == want and len(got) == len(want), "non_cutting", lambda: "non_cutting_vertices(%s) is %s, expected %s on %s" % (sb, got, want, show(a)))
    case.see("op:non_cutting")
    # steiner trees
    root = r.randrange(n)
    l = links(a)
    for name in ('steiner_tree', 'rec_steiner_tree'):
        if n > 16 and name == 'steiner_tree':
            continue
        if name == 'steiner_tree':
            term = [q for q in range(root, n) if q == root or r.random() < .5]
            it = a.steiner_tree(root, term, True)
            inside = set(range(root, n))
        else:
            inside = set(range(n))
            term = [q for q in range(n) if q == root or r.random() < .4]
            it = a.rec_steiner_tree(root, term, list(range(n)), [], True)
        seq = list(it)
        case.check(seq.count(None) == 2 and seq[-1] is None, name + ":phases", lambda: "%s yields %s" % (name, seq))
        top, bottom = seq[:seq.index(None)], seq[seq.index(None) + 1:-1]
        seen = {root}
        ok = True
        for s, t in top:
            ok = ok and s in seen and t not in seen and frozenset((s, t)) in l and t in inside
            seen.add(t)
        case.check(ok and set(term) <= seen, name, lambda: "%s(%d, %s) yields %s, which is not a tree from the root over the terminals on %s" % (name, root, term, top, show(a)))
        gone = set()
        ok = sorted(bottom) == sorted(top)
        for s, t in bottom:
            ok = ok and all(y in gone for x, y in top if x == t)
            gone.add(t)
        case.check(ok, name + ":bottom_up", lambda: "%s(%d, %s) yields top-down %s but bottom-up %s" % (name, root, term, top, bottom))
        leaves = [t for s, t in top if all(x != t for x, y in top)]
        case.check(set(leaves) <= set(term), name + ":minimal", lambda: "a leaf of %s is not a terminal %s" % (top, term))
        case.see("op:" + name)
    if n > 2:
        case.note('arch', sorted(map(sorted, l)), sub, rec, root)


def k_density(case):
    """Generated architectures of a given density: connected, on the asked number of qubits, with the couplings they promise."""
    r = case.rng
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 10])
    p = r.choice([0, .1, .25, .4, .6, .8, 1])
    f = r.choice([A.create_dynamic_density_architecture, A.create_dynamic_density_hamiltonian_architecture, A.create_dynamic_density_tree_architecture])
    if f is A.create_dynamic_density_tree_architecture:
        n = max(n, 2)
    a = f(n, density_prob=p)
    adj = {v: set() for v in a.graph.vertices()}
    for e in a.graph.edges():
        s, t = a.graph.edge_st(e)
        adj[s].add(t)
        adj[t].add(s)
    vs = list(adj)
    m = len({frozenset((s, t)) for s in adj for t in adj[s]})
    what = "%s(%d, %s)" % (f.__name__, n, p)
    case.check(a.n_qubits == n == len(vs) and len(bfs(adj, vs[0])) == n, "density:connected", lambda: "%s gives %d qubits, of which %d are connected to the first" % (what, len(vs), len(bfs(adj, vs[0]))))
    case.check(all(v not in adj[v] for v in vs), "density:loop", lambda: "%s couples a qubit to itself" % what)
    if f is not A.create_dynamic_density_architecture:
        want = max(n - 1, int(p * n * (n - 1) / 2))
        case.check(m == want, "density:count", lambda: "%s has %d couplings, not %d" % (what, m, want))
        if f is A.create_dynamic_density_hamiltonian_architecture:
            case.check(all(vs[i + 1] in adj[vs[i]] for i in range(n - 1)), "density:path", lambda: "%s has no path through the qubits in order" % what)
    elif p == 1:
        case.check(m == n * (n - 1) // 2, "density:count", lambda: "%s has %d couplings" % (what, m))
    elif p == 0:
        case.check(m == n - 1, "density:count", lambda: "%s has %d couplings" % (what, m))
    case.see("op:density")
    if n > 2:
        case.note('density', f.__name__, sorted(map(sorted, links(a))))


class PoolStep:
    """A step function for worker processes; what it was asked is appended to a file."""
    def __init__(self, w, fn, swap):
        self.w, self.fn, self.swap, self.k = w, fn, swap, 0

    def __call__(self, c):
        c = [int(x) for x in c]
        n = len(c)
        v = 1 + sum(self.w[i][x % n] for i, x in enumerate(c))
        new = list(c)
        if (v + len(c)) % 2 and n > 1:
            i, j = self.swap
            new[i], new[j] = new[j], new[i]
        sol = os.urandom(8).hex()
        with open(self.fn, "a") as f:
            f.write(json.dumps([c, v, sol]) + "\n")
        return new, sol, v


def pool_search(case, n, w, big):
    """The swarm with several worker processes."""
    r = case.rng
    fd, fn = tempfile.mkstemp(prefix="vt13")
    os.close(fd)
    try:
        step = PoolStep(w, fn, r.sample(range(n), 2))
        pso = ParticleSwarmOptimization(r.randrange(1, 7), step, r.choice([0., .4, 1.]), r.choice([0., .3, 1.]), r.choice([0., .2, .5, 1.]), maximize=big, n_threads=2)
        rounds = r.randrange(1, 6)
        try:
            twice = r.random() < .4
            if twice:
                pso.find_optimum(n, 1, close_pool=False)
                os.truncate(fn, 0)
            res = pso.find_optimum(n, rounds)
        finally:
            if pso.pool is not None:
                pso.pool.terminate()
        with open(fn) as f:
            log = [json.loads(l) for l in f]
        what = "swarm with 2 processes(n=%d, size=%d, steps=%d, maximize=%s)" % (n, pso.size, rounds, big)
        case.check(len(log) == rounds * pso.size, "search:steps", lambda: "%s made %d steps" % (what, len(log)))
        case.check(all(sorted(c) == list(range(n)) for c, _, _ in log), "search:candidates", lambda: "%s stepped to %s, not a permutation" % (what, [c for c, _, _ in log if sorted(c) != list(range(n))][:1]))
        case.check(list(range(n)) in [c for c, _, _ in log[:pso.size]], "search:start", lambda: "%s does not start from the given placement" % what)
        best = (max if big else min)(v for _, v, _ in log)
        got = [v for _, v, s in log if s == res]
        case.check(got == [best], "search:best", lambda: "%s returned the solution %s of fitness %s, it had found one of %s" % (what, res, got, best))
        case.see("op:search_pool")
        case.note('pool', w, big, len(log))
    finally:
        os.unlink(fn)


def k_search(case):
    """The two optimisers: every candidate they evaluate is a rearrangement, and the best of them is returned."""
    r = case.rng
    n = r.choice([2, 3, 4, 5, 6, 7])
    w = [[r.randrange(0, r.choice([2, 5, 40])) for _ in range(n)] for _ in range(n)]
    log = []
    big = r.random() < .5

    def cost(c):
        c = [int(x) for x in c]
        return 1 + sum(w[i][x % n] for i, x in enumerate(c))
    if r.random() < .5:
        labels, tail, order = list(range(n)), [], None
        x = r.random()
        if x < .35:
            labels = r.sample(range(n, 3 * n), n)
            order = list(labels)
            if r.random() < .6:
                tail = r.sample([i for i in range(4 * n) if i not in labels], r.randrange(1, 4))
                order += tail

        def f(c):
            v = cost(c)
            log.append(([int(x) for x in c], v))
            return v
        ga = GeneticAlgorithm(r.randrange(4, 10), r.choice([0., .5, 1.]), r.choice([0., .5, 1.]), f, maximize=big)
        opt = {} if r.random() < .6 else dict(n_child=r.randrange(1, 8))
        rounds = r.randrange(0, 6)
        res = ga.find_optimum(n, rounds, initial_order=order, **opt)
        what = "genetic(n=%d, order=%s, generations=%d, maximize=%s)" % (n, order, rounds, big)

        def verdict(res, what):
            res = [int(x) for x in res]
            case.check(all(sorted(c) == sorted(labels) for c, _ in log), "search:candidates", lambda: "%s evaluated %s, not a rearrangement of %s" % (what, [c for c, _ in log if sorted(c) != sorted(labels)][:1], labels))
            case.check(res[n:] == tail and sorted(res[:n]) == sorted(labels), "search:result", lambda: "%s returned %s" % (what, res))
            best = (max if big else min)(v for _, v in log)
            case.check(cost(res[:n]) == best, "search:best", lambda: "%s returned a candidate of fitness %s, it had evaluated one of %s" % (what, cost(res[:n]), best))
        verdict(res, what)
        case.see("op:search_genetic")
        if big:
            case.see("op:search_genetic_max")
        if order is not None:
            case.see("op:search_genetic_partial" if tail else "op:search_genetic_order")
        elif r.random() < .5:
            verdict(ga.find_optimum(n, r.randrange(0, 4), continued=True, **opt), what + " continued")
            case.see("op:search_genetic_continued")
    elif r.random() < .02:
        return pool_search(case, n, w, big)
    else:
        lists = r.random() < .5  # the step function of sequential_gauss answers with lists

        def step(c):
            v = cost(c)
            new = list(c)
            if r.random() < .5:
                i, j = r.sample(range(n), 2)
                new[i], new[j] = new[j], new[i]
            sol = ('solution', len(log))
            log.append(([int(x) for x in c], v, sol))
            return new if lists else np.array(new), sol, v
        pso = ParticleSwarmOptimization(r.randrange(1, 7), step, r.choice([0., .4, 1.]), r.choice([0., .3, 1.]), r.choice([0., .2, .5, 1.]), maximize=big, n_threads=1)
        rounds = r.randrange(1, 7)
        res = pso.find_optimum(n, rounds)
        what = "swarm(n=%d, size=%d, steps=%d, maximize=%s)" % (n, pso.size, rounds, big)
        case.check(len(log) == rounds * pso.size, "search:steps", lambda: "%s made %d steps" % (what, len(log)))
        case.check(all(sorted(c) == list(range(n)) for c, _, _ in log), "search:candidates", lambda: "%s stepped to %s, not a permutation" % (what, [c for c, _, _ in log if sorted(c) != list(range(n))][:1]))
        case.check(log[0][0] == list(range(n)), "search:start", lambda: "%s does not start from the given placement but from %s" % (what, log[0][0]))
        best = (max if big else min)(v for _, v, _ in log)
        got = [v for _, v, s in log if s == res]
        case.check(got == [best], "search:best", lambda: "%s returned the solution %s of fitness %s, it had found one of %s" % (what, res, got, best))
        case.see("op:search_swarm")
        if big:
            case.see("op:search_swarm_max")
    case.note('search', w, big, len(log))


def k_tracker(case):
    r = case.rng
    n = r.randrange(1, 7)
    c = CNOT_tracker(n)
    want = []
    for _ in range(r.randrange(0, 25)):
        x = r.random()
        if n == 1:
            break
        s, t = r.sample(range(n), 2)
        if x < .25:
            c.row_add(s, t)
            want.append((s, t))
            case.see("op:tracker_rows")
        elif x < .5:
            c.col_add(s, t)
            want.insert(0, (t, s))
            case.see("op:tracker_cols")
        elif x < .65:
            c.add_gate(G.CNOT(s, t))
            want.append((s, t))
            case.see("op:tracker_gates")
        elif x < .8:
            c.add_gate("CNOT", s, t)
            want.append((s, t))
            case.see("op:tracker_gates")
        else:
            c.prepend_gate("CNOT", s, t) if r.random() < .5 else c.prepend_gate(G.CNOT(s, t))
            want.insert(0, (s, t))
            case.see("op:tracker_prepend")
    case.check([(g.control, g.target) for g in c.gates] == want, "tracker:gates", lambda: "the tracker holds %s, expected %s" % ([(g.control, g.target) for g in c.gates], want))
    m = run(c.gates, n)
    case.check(c.matrix.data == m, "tracker:matrix", lambda: "the parity matrix of %s is given as %s" % (want, c.matrix.data))
    case.check(c.count_cnots() == len(want), "tracker:count", "CNOT count")
    d = asap(c.gates, n)
    case.check(c.cnot_depth() == d and c.gather_metrics() == {"n_cnots": len(want), "depth": d}, "tracker:depth", lambda: "depth %s and metrics %s of %s, which has depth %d" % (c.cnot_depth(), c.gather_metrics(), want, d))
    case.see("op:tracker_depth")
    e = Circuit(n)
    e.gates = [G.CNOT(s, t) for s, t in want]
    t = CNOT_tracker.from_circuit(e)
    case.check(t.matrix.data == m and [(g.control, g.target) for g in t.gates] == want, "tracker:from_circuit", lambda: "from_circuit of %s" % want)
    if n > 1:
        t.row_add(0, 1)
        case.check(len(e.gates) == len(want), "tracker:alias", "adding to a tracker made from a circuit changed the circuit")
        u = CNOT_tracker.from_circuit(e)
        u.gates = list(reversed(e.gates))
        u.update_matrix()
        case.check(u.matrix.data == run(reversed(e.gates), n), "tracker:update_matrix", "update_matrix")
    case.see("op:tracker_from_circuit")
    back = Circuit.from_qasm(c.to_qasm())
    case.check([(g.control, g.target) for g in back.gates] == want and back.qubits == n, "tracker:qasm", lambda: "QASM of the tracker is read back as %s" % gen.show_circ(back))
    case.see("op:tracker_qasm")
    # parities
    bits = [r.randrange(2) for _ in range(r.randrange(1, 8))]
    text = "".join(map(str, bits))
    for p in (Parity(bits), Parity(text), Parity([bool(b) for b in bits])):
        case.check(list(p) == [bool(b) for b in bits] and p.count() == sum(bits) and len(p) == p.n_qubits() == len(bits) and str(p) == text and p.to_mat2_row() == bits and p[0] == bool(bits[0]), "parity", lambda: "Parity of %s is %s" % (text, p))
        case.check(p == Parity(bits) and p == text and hash(p) == hash(Parity(text)), "parity:eq", "equal parities differ")
        other = bits.copy()
        other[r.randrange(len(bits))] ^= 1
        case.check(not (p == Parity(other)), "parity:neq", "different parities are equal")
    k = r.randrange(1, 200)
    case.check(str(Parity(k)) == bin(k)[2:], "parity:int", lambda: "Parity(%d) is %s" % (k, Parity(k)))
    case.check(str(Parity(bits, n_qubits=len(bits) + 2)) == text + "00", "parity:pad", "padding")
    p = Parity(bits)
    i = r.randrange(len(bits))
    p[i] = not bits[i]
    case.check(list(p) == [bool(b) != (j == i) for j, b in enumerate(bits)], "parity:set", "item assignment")
    case.see("op:parity")
    # an architecture with given placement
    a0 = rand_arch(r, n)
    mp = list(range(n))
    r.shuffle(mp)
    a = Architecture('m', coupling_graph=a0.graph.copy(), qubit_map=list(mp))
    case.check(all(a.qubit2vertex(q) == mp[q] and a.vertex2qubit(mp[q]) == q for q in range(n)), "given_map", lambda: "given qubit_map %s" % mp)
    case.see("op:given_map")
    if len(want) > 1:
        case.note('tracker', want)


KINDS = {'route': (k_route, 9000, 90000), 'genetic': (k_genetic, 2500, 25000), 'sequential': (k_sequential, 900, 9000), 'arch': (k_arch, 3000, 30000), 'tracker': (k_tracker, 6000, 60000), 'density': (k_density, 600, 6000), 'search': (k_search, 2000, 20000)}
