"""P20: stabiliser decompositions and simulation."""
import cmath
import itertools
import math
import random
from fractions import Fraction
import numpy as np
from .. import gen, mon, ref
from ..run import Skip
from pyzx import simulate as S
from pyzx import simplify
from pyzx.graph import Graph
from pyzx.utils import EdgeType, VertexType
from .p17 import of, differ
from .p19 import small

VT, ET = VertexType, EdgeType
RULE = "random graph-like Clifford+T diagrams (maps, states and scalars), decomposed, reduced, post-selected, sampled and summed by PyZX and by dense linear algebra; non-trivial when there are at least 2 non-Clifford phases and the value is nonzero; distinct by (operation, diagram)"
ASSUMPTIONS = ["diagrams are graph-like Clifford+T (phases multiples of pi/4)", "path sums get fully reduced scalars, as documented", "norm estimates are compared at six standard deviations of the exact distribution", "sums keep at least one term when their tensor is read"]
NEED = ['magic:%d' % k for k in (1, 2, 6)] + ['pick:' + p for p in ('ranked', 'random', 'seed')] + ['refused', 'gadget', 'boundary', 'decomp', 'decomp:scalar', 'decomp:state', 'decomp:many', 'unchanged'] + ['sum:' + x for x in
        ('tensor', 'matrix', 'full_reduce', 'reduce_scalar', 'vanish', 'empty')] + ['post:' + x for x in '01+-'] + ['post:' + x for x in ('several', 'wire', 'hadamard')] + ['inner', 'inner:bell', 'inner:hadamard', 'inner:sum', 'norm', 'sample:basis', 'sample:post', 'sample:order', 'sample:random', 'sample:joint', 'sample:joint_several', 'pathsum', 'pathsum:gadget', 'pathsum:isolated', 'pathsum:zero', 'pathsum:big']


def tensor(g):
    try:
        return np.asarray(ref.tensor(g))
    except ref.TooBig:
        raise Skip("too big")


def total(gs, like=None):
    t = 0 if like is None else np.zeros(like.shape, dtype=complex)
    for g in gs:
        t = t + tensor(g)
    return np.asarray(t)


def same(case, what, want, got, show, scale=1):
    m = max(np.abs(want).max(initial=0), scale)
    case.check(ref.close(want, got, tol=1e-7, atol=1e-8 * m), what, lambda: "%s: %s: %s" % (what, ref.describe(want, got), show()))


def tees(g):
    return sum(1 for v in g.vertices() if (Fraction(g.phase(v)) * 2).denominator != 1)


def diag(case, n_in=None, n_out=None, n=None, phases=None, gadgets=None, backend=None, t=None):
    r = case.rng
    g = gen.graphlike(r, n_in=n_in, n_out=n_out, n=n, phases=phases or r.choice(['cliffordT', 'cliffordT', 'clifford']), backend=backend or r.choice(['simple', 'simple', 'multigraph']), gadgets=gadgets, bound_h=r.choice([0, .3]), interior_pauli=r.choice([0, .3]))
    return g


def size(g):
    """The scale of the terms, for absolute tolerances."""
    return max(abs(complex(g.scalar.to_number())), 1e-6) * 2 ** (g.num_vertices() / 2)


def k_magic(case):
    r = case.rng
    many = r.random() < .45
    g = diag(case, n=r.randrange(5, 9) if many else r.randrange(1, 5), phases='cliffordT' if many else None, n_in=r.randrange(3), n_out=r.randrange(3))
    k = tees(g)
    if k == 0:
        try:
            S.replace_magic_states(g)
        except Exception:
            case.see("refused")
            return
        case.fail("refused", "replace_magic_states found magic states in a Clifford diagram: %s" % gen.show(g))
    want = tensor(g)
    before = of(g)
    kind = r.choice(['ranked', 'random', 'seed'])
    pick = {'ranked': False, 'random': True, 'seed': r.randrange(2, 1000)}[kind]
    s = S.replace_magic_states(g, pick) if kind != 'ranked' or r.random() < .5 else S.replace_magic_states(g)
    case.see("pick:" + kind)
    n = 6 if k >= 6 else 2 if k >= 2 else 1
    show = lambda: "%d T-like phases, pick_random=%s, %s" % (k, pick, gen.show(g))
    case.check(len(s.graphs) == (7 if n == 6 else 2), "magic:terms", lambda: "%d terms: %s" % (len(s.graphs), show()))
    got = total(s.graphs, want)
    same(case, "magic", want, got, show, size(g))
    for h in s.graphs:
        x = mon.structure(h)
        case.check(x is None, "magic:structure", lambda: "a term is inconsistent: %s: %s" % (x, show()))
        case.check(tees(h) == k - n, "magic:count", lambda: "a term has %d T-like phases left: %s" % (tees(h), show()))
        case.check(h.inputs() == s.graphs[0].inputs() and len(h.inputs()) == len(g.inputs()) and len(h.outputs()) == len(g.outputs()), "magic:boundary", lambda: "the terms have different boundaries: %s" % show())
    d = differ(g, before)
    case.check(d is None, "unchanged", lambda: "replace_magic_states changed its diagram: %s" % d)
    case.see("unchanged")
    case.see("magic:%d" % n)
    if kind == 'seed':
        s2 = S.replace_magic_states(g, pick)
        case.check([gen.show(h) for h in s.graphs] == [gen.show(h) for h in s2.graphs], "magic:seed", lambda: "the same seed picks other magic states: %s" % show())
    for v in g.vertices():
        if g.vertex_degree(v) == 1 and g.type(v) == VT.Z:
            case.see("gadget")
        if any(g.type(w) == VT.BOUNDARY for w in g.neighbors(v)) and (Fraction(g.phase(v)) * 2).denominator != 1:
            case.see("boundary")
    if k >= 2 and np.abs(want).max(initial=0) > 1e-9:
        case.note('magic', kind, gen.show(g))
        case.sample(gen.show(g))
    # the sum as an object
    for h in s.graphs:
        small(h, 18)
    t = s.to_tensor() if r.random() < .5 else s.to_matrix().reshape(want.shape)
    same(case, "sum:tensor", want, np.asarray(t), show, size(g))
    case.see("sum:tensor")
    case.see("sum:matrix")
    if g.backend == 'simple' and r.random() < .6:
        name = r.choice(['full_reduce', 'reduce_scalar'])
        m = len(s.graphs)
        getattr(s, name)()
        got = total(s.graphs, want)
        same(case, "sum:" + name, want, got, show, size(g))
        case.check(not any(h.scalar.is_zero for h in s.graphs), "sum:zeros", lambda: "%s kept a term that is zero: %s" % (name, show()))
        case.see("sum:" + name)
        if len(s.graphs) < m:
            case.see("sum:vanish")
        if not s.graphs:
            case.see("sum:empty")
            case.check(not np.any(s.to_tensor()) and not np.any(s.to_matrix()) and s.inner_product_with_random_state() == 0, "sum:empty", "an empty sum is not zero")


def k_decomp(case):
    r = case.rng
    mode = r.choice(['scalar', 'scalar', 'state', 'map'])
    big = r.random() < .3
    g = diag(case, n_in=r.randrange(1, 3) if mode == 'map' else 0, n_out=r.randrange(1, 3) if mode in ('map', 'state') else 0, n=r.randrange(6, 10) if big else r.randrange(2, 6), phases='cliffordT', gadgets=r.randrange(3), backend='simple')
    k = tees(g)
    if k > 12:
        raise Skip("too many")
    want = tensor(g)
    scale = size(g)
    text = gen.show(g)
    before = of(g)
    bound = S.max_terms_needed(g)
    if r.random() < .5:
        simplify.full_reduce(g)
        k, bound = tees(g), S.max_terms_needed(g)
        if any((Fraction(g.phase(v)) * 4).denominator != 1 for v in g.vertices()):
            raise Skip("not Clifford+T")
        before = of(g)
    out = S.find_stabilizer_decomp(g)
    d = differ(g, before)
    case.check(d is None, "unchanged", lambda: "find_stabilizer_decomp changed its diagram: %s: %s" % (d, text))
    for h in out:
        case.check(tees(h) == 0, "decomp:stabiliser", lambda: "a term of the decomposition has %d non-Clifford phases: %s" % (tees(h), text))
        x = mon.structure(h)
        case.check(x is None, "decomp:structure", lambda: "a term is inconsistent: %s: %s" % (x, text))
        case.check(k == 0 or not h.scalar.is_zero, "decomp:zero", lambda: "the decomposition has a zero term: %s" % text)
    f = lambda k: 7 ** (k // 6) * [1, 2, 2, 4, 4, 8][k % 6]
    case.check(bound == f(k), "decomp:formula", lambda: "max_terms_needed is %d for %d magic states" % (bound, k))
    # after the first six, fewer magic states may remain but need more terms (8 for 5, 7 for 6)
    worst = {0: 1}
    for j in range(1, k + 1):
        n = 6 if j >= 6 else 2 if j >= 2 else 1
        worst[j] = (7 if n == 6 else 2) * max(worst[i] for i in range(j - n + 1))
    case.check(len(out) <= worst[k], "decomp:terms", lambda: "%d terms for %d magic states: %s" % (len(out), k, text))
    same(case, "decomp", want, total(out, want), lambda: text, scale)
    case.see("decomp")
    case.see("decomp:" + mode)
    if k >= 6:
        case.see("decomp:many")
    if k >= 2 and np.abs(want).max(initial=0) > 1e-9:
        case.note('decomp', text)


EFFECT = {'0': [1, 0], '1': [0, 1], '+': [math.sqrt(.5)] * 2, '-': [math.sqrt(.5), -math.sqrt(.5)]}


def state(case, n, phases=None, wires=True):
    """A state of n qubits, possibly with Bell pairs and Hadamards on the outputs."""
    r = case.rng
    bell = 2 if wires and n >= 2 and r.random() < .3 else 0
    if wires and n >= 4 and r.random() < .3:
        bell = 4
    if r.random() < .6:
        g = gen.graphlike(r, n_in=0, n_out=n - bell, n=r.randrange(max(1, n - bell), 7), phases=phases or 'cliffordT', bound_h=.3, gadgets=r.randrange(2), with_scalar=r.random() < .4)
    else:
        g = gen.diagram(r, n_in=0, n_out=n - bell, phases=phases or 'cliffordT', with_scalar=r.random() < .4, bare=.2 if wires else 0)
    outs = list(g.outputs())
    for _ in range(bell // 2):
        a, b = g.add_vertex(VT.BOUNDARY, 5, 8), g.add_vertex(VT.BOUNDARY, 6, 8)
        g.add_edge((a, b), r.choice([ET.SIMPLE, ET.HADAMARD]))
        outs += [a, b]
    r.shuffle(outs)
    g.set_outputs(tuple(outs))
    return g


def seen_boundary(case, what, g):
    for v in g.outputs():
        w = list(g.neighbors(v))[0]
        if g.type(w) == VT.BOUNDARY:
            case.see(what)
        elif g.edge_type(g.edge(v, w)) == ET.HADAMARD:
            case.see(what.split(':')[0] + ':hadamard')


def k_post(case):
    r = case.rng
    n = r.randrange(1, 5)
    gs = [state(case, n) for _ in range(r.randrange(1, 3))]
    if r.random() < .3:
        i = r.randrange(1, 3)
        gs = [gen.graphlike(r, n_in=i, n_out=n, phases='cliffordT', bound_h=.3) for _ in range(2)]
        if r.random() < .5:
            g = Graph()
            a = [g.add_vertex(VT.BOUNDARY, k, 0) for k in range(max(i, n))]
            b = [g.add_vertex(VT.BOUNDARY, k, 2) for k in range(max(i, n))]
            for x, y in zip(a, b):
                g.add_edge((x, y), r.choice([ET.SIMPLE, ET.HADAMARD]))
            g.set_inputs(tuple(a))
            g.set_outputs(tuple(b))
            gs = [g]
            n = max(i, n)
    befores = [of(g) for g in gs]
    want = total(gs)
    qs = r.sample(range(n), r.randrange(1, n + 1))
    sel = {q: r.choice('01+-') for q in qs}
    s = S.SumGraph([g for g in gs])
    p = s.post_select(sel)
    t = want
    for q in sorted(sel, reverse=True):
        t = np.tensordot(np.array(EFFECT[sel[q]]), t, axes=(0, q))
        case.see("post:" + sel[q])
    if len(sel) > 1:
        case.see("post:several")
    for g in gs:
        seen_boundary(case, "post:wire", g)
    show = lambda: "post-selecting %s of %s" % (sel, " + ".join(map(gen.show, gs)))
    got = total(p.graphs)
    case.check(got.shape == np.shape(t), "post:shape", lambda: "%s leaves shape %s" % (show(), got.shape))
    same(case, "post", np.asarray(t), got, show, max(map(size, gs)))
    for g, b in zip(gs, befores):
        d = differ(g, b)
        case.check(d is None, "unchanged", lambda: "%s changed the sum: %s" % (show(), d))
    case.note('post', sorted(sel.items()), *map(gen.show, gs))


def k_inner(case):
    """The inner product with a random equatorial stabiliser state is one of the possible values."""
    r = case.rng
    n = r.choice([0, 1, 1, 2, 2, 2, 3])
    gs = [state(case, n, phases='clifford')]
    if r.random() < .4:
        gs.append(state(case, n, phases='clifford'))
        case.see("inner:sum")
    for g in gs:
        seen_boundary(case, "inner:bell", g)
    psi = total(gs).reshape(-1)
    befores = [of(g) for g in gs]
    s = S.SumGraph(gs)
    vals = []
    reps = 6
    for _ in range(reps):
        vals.append(complex(s.inner_product_with_random_state()))
    # all equatorial stabiliser effects
    bits = np.array(list(itertools.product([0, 1], repeat=n)), dtype=int).reshape(2 ** n, n)
    pairs = list(itertools.combinations(range(n), 2))
    poss = []
    for ph in itertools.product(range(4), repeat=n):
        lin = bits @ np.array(ph, dtype=int) if n else np.zeros(1, dtype=int)
        for cs in itertools.product([0, 1], repeat=len(pairs)):
            e = lin.copy()
            for (a, b), c in zip(pairs, cs):
                if c:
                    e = e + 2 * bits[:, a] * bits[:, b]
            poss.append(np.dot(np.array([1, 1j, -1, -1j])[e % 4], psi))
    poss = np.array(poss)
    scale = max(np.abs(psi).max(initial=0), max(map(size, gs)) * 1e-3, 1e-9)
    for v in vals:
        case.check(np.abs(poss - v).min() < 1e-6 * max(1, scale), "inner", lambda: "the inner product %s with a random stabiliser state is none of the possible values of %s" % (v, " + ".join(map(gen.show, gs))))
    for g, b in zip(gs, befores):
        d = differ(g, b)
        case.check(d is None, "unchanged", lambda: "an inner product changed the sum: %s" % d)
    case.see("inner")
    case.note('inner', *map(gen.show, gs))


def k_norm(case):
    """Norm estimates are within six standard deviations (all moments computed exactly)."""
    r = case.rng
    n = r.choice([1, 2, 2, 3])
    g = state(case, n, phases='clifford')
    psi = tensor(g).reshape(-1)
    norm = float(np.vdot(psi, psi).real)
    if norm < 1e-6:
        raise Skip("zero")
    bits = list(itertools.product([0, 1], repeat=n))
    pairs = list(itertools.combinations(range(n), 2))
    vals = []
    for ph in itertools.product(range(4), repeat=n):
        for cs in itertools.product([0, 1], repeat=len(pairs)):
            e = [sum(p * b for p, b in zip(ph, x)) + 2 * sum(x[i] * x[j] for (i, j), c in zip(pairs, cs) if c) for x in bits]
            vals.append(abs(sum((1, 1j, -1, -1j)[k % 4] * a for k, a in zip(e, psi))) ** 2)
    vals = np.array(vals)
    eps = r.choice([.5, .3, .2])
    count = int(4 / eps ** 2)
    got = S.SumGraph([g]).estimate_norm(eps)
    # Hoeffding/Chernoff is loose for few samples: use the exact deviation and the largest value
    dev = 6 * math.sqrt(vals.var() / count) + 4 * vals.max() / count
    case.check(abs(got - norm) <= dev + 1e-9 * norm, "norm", lambda: "the norm squared of %s is estimated as %s instead of %s (epsilon %s, allowed deviation %.3g)" % (gen.show(g), got, norm, eps, dev))
    case.see("norm")
    case.note('norm', gen.show(g))


def k_sample(case):
    """Measuring computational basis states gives their bits, whatever is post-selected before."""
    r = case.rng
    n = r.randrange(1, 6)
    g = Graph()
    outs, bits = [], []
    for q in range(n):
        o = g.add_vertex(VT.BOUNDARY, q, 3)
        x = g.add_vertex(r.choice([VT.Z, VT.X]), q, 1)
        b = r.randrange(2)
        g.set_phase(x, b)
        g.add_edge((x, o), ET.SIMPLE if g.type(x) == VT.X else ET.HADAMARD)
        g.scalar.add_power(-1)
        outs.append(o)
        bits.append(b)
    # permute the vertices with respect to the qubits
    g.set_outputs(tuple(outs))
    rest = list(range(n))
    post = None
    if n > 1 and r.random() < .6:
        qs = r.sample(rest, r.randrange(1, n))
        post = {q: str(bits[q]) if r.random() < .6 else r.choice('+-') for q in qs}
        rest = [q for q in rest if q not in post]
        case.see("sample:post")
    ask = r.sample(rest, r.randrange(1, len(rest) + 1))
    if ask != sorted(ask):
        case.see("sample:order")
    s = S.SumGraph([g])
    res = s.sample(list(ask), post_selected=post, amount=2, epsilon=.7)
    want = [[(q, bits[q]) for q in ask]] * 2
    case.check([[(q, int(v)) for q, v in x] for x in res] == want, "sample:basis", lambda: "sampling qubits %s (post-selected %s) of the basis state %s gives %s" % (ask, post, bits, res))
    case.see("sample:basis")
    case.note('sample', bits, ask, sorted((post or {}).items()))


def k_random(case):
    """Frequencies of samples of small states agree with the Born rule (within a wide margin)."""
    r = case.rng
    n = r.randrange(1, 3)
    g = state(case, n, phases='cliffordT')
    if any(g.type(v) == VT.X for v in g.vertices()):
        simplify.to_graph_like(g)
    psi = tensor(g)
    p = np.abs(psi) ** 2
    if p.sum() < 1e-3 or tees(g) > 4:
        raise Skip("zero")
    p = p / p.sum()
    ask = r.sample(range(n), n)
    case.see("sample:random")
    gs = S.find_stabilizer_decomp(g) if tees(g) else [g]
    if any(tees(h) for h in gs) or not gs:
        raise Skip("not a stabiliser sum")
    amount = 24
    res = S.SumGraph([h.copy() for h in gs]).sample(ask, amount=amount, epsilon=.15)
    for q in ask:
        axes = tuple(a for a in range(n) if a != q)
        want = p.sum(axis=axes)[1]
        freq = sum(dict(x)[q] for x in res) / amount
        case.check(abs(freq - want) < .75, "sample:random", lambda: "qubit %d is 1 with probability %.3f but was in %.0f%% of %d samples: %s" % (q, want, 100 * freq, amount, gen.show(g)))
    case.note('random', gen.show(g))


def k_joint(case):
    """The joint distribution of samples, with the norm estimation replaced by the exact norm (the estimate is judged on its own)."""
    r = case.rng
    n = r.randrange(1, 5)
    if r.random() < .5:
        g = gen.graphlike(r, n_in=0, n_out=n, n=r.randrange(n, n + 5), phases='clifford', gadgets=0)
    else:
        g = gen.circuit(r, nq=n, ngates=r.randrange(0, 4 * n), names=['HAD', 'S', 'CNOT', 'CZ', 'HAD', 'NOT'] + (['T'] if r.random() < .5 else [])).to_graph()
        g.apply_state(''.join(r.choice('01+-') for _ in range(n)))
        simplify.to_graph_like(g)
    if tees(g) > 3:
        raise Skip("large")
    psi = tensor(g)
    text = gen.show(g)
    rest, post = list(range(n)), None
    if n > 1 and r.random() < .4:
        post = {q: r.choice('01+-') for q in r.sample(rest, r.randrange(1, n))}
        for q in sorted(post, reverse=True):
            psi = np.tensordot(psi, np.array({'0': [1, 0], '1': [0, 1], '+': [.5 ** .5] * 2, '-': [.5 ** .5, -.5 ** .5]}[post[q]]), axes=([q], [0]))
        rest = [q for q in rest if q not in post]
    ask = r.sample(rest, r.randrange(1, len(rest) + 1))
    p = np.abs(psi) ** 2
    if p.sum() < 1e-6 * max(1., size(g)):
        raise Skip("zero")
    p = p / p.sum()
    p = p.sum(axis=tuple(i for i, q in enumerate(rest) if q not in ask))   # axes: the asked qubits in ascending order
    p = np.transpose(p, [sorted(ask).index(q) for q in ask])
    gs = S.find_stabilizer_decomp(g) if tees(g) else [g]
    if not gs or any(tees(h) for h in gs):
        raise Skip("not a stabiliser sum")
    calls = []

    def exact(self, epsilon=0.05):
        calls.append(epsilon)
        return float((np.abs(sum(complex(h.scalar.to_number()) * h.to_tensor(False) for h in self.graphs)) ** 2).sum()) if self.graphs else 0.
    keep = S.SumGraph.estimate_norm
    S.SumGraph.estimate_norm = exact
    amount = 800
    try:
        res = S.SumGraph([h.copy() for h in gs]).sample(list(ask), post_selected=post, amount=amount, epsilon=.2)
    finally:
        S.SumGraph.estimate_norm = keep
    what = "%s asking %s (post-selected %s)" % (text, ask, post)
    case.check(len(res) == amount and all([q for q, _ in x] == ask for x in res), "sample:shape", lambda: "%d samples of %s like %s" % (len(res), what, res[:1]))
    if not calls:
        raise Skip("norms are not estimated here")
    got = np.zeros([2] * len(ask))
    for x in res:
        got[tuple(int(b) for _, b in x)] += 1
    case.see("sample:joint")
    for i, x in np.ndenumerate(p):
        dev = 6 * math.sqrt(max(x * (1 - x), 0) * amount) + 6
        if x < 1e-9:
            dev = 0
        case.check(abs(got[i] - x * amount) <= dev + 1e-6, "sample:joint", lambda: "outcome %s of %s has probability %.4f, it came %d times in %d samples" % (i, what, x, got[i], amount))
    # chi-square over the outcomes (rare ones together), far beyond chance: about 1e-10
    cells = [(got[i], x * amount) for i, x in np.ndenumerate(p)]
    rare = [c for c in cells if c[1] < 8]
    cells = [c for c in cells if c[1] >= 8] + ([(sum(a for a, _ in rare), sum(b for _, b in rare))] if sum(b for _, b in rare) >= 8 else [])
    k = len(cells) - 1
    if k > 0:
        chi = sum((a - b) ** 2 / b for a, b in cells)
        limit = k * (1 - 2 / (9 * k) + 6.5 * (2 / (9 * k)) ** .5) ** 3
        case.check(chi <= limit, "sample:joint", lambda: "outcomes of %s: chi-square %.1f of %d outcomes (at most %.1f by chance): %s, probabilities %s" % (what, chi, k + 1, limit, got.tolist(), p.round(3).tolist()))
    if len(ask) > 1 and (p > .01).sum() > 1:
        case.see("sample:joint_several")
        case.note('joint', text, ask)


def k_path(case):
    r = case.rng
    big = r.random() < .3
    if r.random() < .7:
        g = gen.graphlike(r, n_in=0, n_out=0, n=r.randrange(6, 11) if big else r.randrange(0, 7), phases='cliffordT', gadgets=r.randrange(4), interior_pauli=r.choice([0, .2]))
    else:
        g = gen.diagram(r, n_in=0, n_out=0, n_spiders=r.randrange(5, 11), phases='cliffordT', isolated=.3)
    want = tensor(g)
    scale = size(g)
    text = gen.show(g)
    simplify.full_reduce(g)
    reduced = gen.show(g)
    if g.num_vertices() > 22:
        raise Skip("large")
    if any((Fraction(g.phase(v)) * 4).denominator != 1 for v in g.vertices()):
        raise Skip("not Clifford+T")
    before = of(g)
    vs = list(g.vertices())
    tot = sum(1 for v in vs if g.phase(v) != 0)
    if tot > 11:
        raise Skip("large")
    val = complex(S.calculate_path_sum(g))
    case.check(abs(val - complex(want)) < 1e-7 * max(abs(complex(want)), scale), "pathsum", lambda: "the path sum of %s is %s instead of %s (reduced to %s)" % (text, val, complex(want), reduced))
    d = differ(g, before)
    case.check(d is None, "unchanged", lambda: "calculate_path_sum changed its diagram: %s" % d)
    case.see("pathsum")
    if any(g.vertex_degree(v) == 1 for v in vs):
        case.see("pathsum:gadget")
    if len(vs) > 1 and any(g.vertex_degree(v) == 0 for v in vs):
        case.see("pathsum:isolated")
    if abs(complex(want)) < 1e-9:
        case.see("pathsum:zero")
    elif tot >= 2:
        case.note('path', text)
    if tot >= 5:
        case.see("pathsum:big")


KINDS = {'magic': (k_magic, 4000, 80000), 'decomp': (k_decomp, 1500, 30000), 'post': (k_post, 4000, 80000), 'inner': (k_inner, 2000, 40000), 'norm': (k_norm, 400, 8000), 'sample': (k_sample, 700, 14000), 'joint': (k_joint, 250, 5000), 'random': (k_random, 24, 600), 'path': (k_path, 5000, 100000)}
