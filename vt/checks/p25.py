"""P25: local search moves and optimisers keep the linear map."""
import random
from fractions import Fraction
import numpy as np
from .. import gen, ref, gref, mon
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S
from pyzx.local_search import congruences as C, scores
from pyzx.local_search.simulated_annealing import anneal
from pyzx.local_search.genetic import GeneticOptimizer, Mutant, default_score, rand_pivot, rand_lc

RULE = ("graph-like diagrams x congruences and random moves; diagrams of circuits x annealing and genetic optimisation with random parameters; non-trivial when the diagram changed; distinct by diagram and move")
ASSUMPTIONS = ["congruences are applied where their own tests (is_lc_vertex, is_pivot_edge) allow it, on graph-like diagrams", "maps are compared up to a nonzero scalar",
               "optimisers are given diagrams that come from circuits"]
NEED = ["lc_cong", "lc_cong2", "pivot_cong", "boundary_pivot", "rand_lc", "rand_pivot", "nothing_to_do", "weights", "unfuse", "anneal", "evolve", "mutants", "select:tournament", "select:top_half",
        "select:top_n", "actions", "improved", "score", "toggled", "best_returned"]


def structure(case, g, what):
    s = mon.structure(g)
    if s is not None:
        case.fail("structure:" + what, "after %s the diagram object is inconsistent: %s" % (what, s))


def same(case, m, g, what, sig):
    structure(case, g, what)
    m2 = ref.matrix(g)
    case.see("maps_compared")
    case.check(m.shape == m2.shape and ref.close_up_to_scalar(m, m2)[0], "map:" + what, lambda: "%s of %s gives %s: %s" % (what, sig, gen.show(g), ref.describe(m, m2)))


def small(case):
    r = case.rng
    x = r.random()
    if x < .6:
        g = gen.graphlike(r, n_in=r.randrange(3), n_out=r.randrange(3), n=r.randrange(1, 9), gadgets=r.randrange(3), phases=r.choice(['mix', 'clifford', 'wild', 'pauli']), p=r.choice([None, .3, .6, .9]))
    else:
        g = gen.circuit(r, nq=r.randrange(1, 4), ngates=r.randrange(1, 16)).to_graph()
        (S.full_reduce if r.random() < .5 else S.interior_clifford_simp)(g, quiet=True)
        S.to_graph_like(g)
    if g.num_vertices() > 22 or g.num_edges() > 45:
        raise Skip("large")
    return g


def k_move(case):
    r = case.rng
    g = small(case)
    m = ref.matrix(g)
    for _ in range(r.choice([1, 1, 2, 3])):
        if g.num_vertices() > 26 or g.num_edges() > 60:
            break
        sig = gen.show(g)
        name = r.choice(['lc_cong', 'lc_cong2', 'pivot_cong', 'pivot_cong', 'rand_lc', 'rand_pivot', 'unfuse'])
        if name in ('lc_cong', 'lc_cong2'):
            vs = sorted(v for v in g.vertices() if C.is_lc_vertex(g, v))
            if not vs:
                continue
            v = r.choice(vs)
            what = "%s(%s)" % (name, v)
            case.check(int(g.type(v)) == 1 and g.vertex_degree(v) > 1 and all(int(g.type(n)) != 0 for n in g.neighbors(v)), "is_lc_vertex", lambda: "is_lc_vertex(%s) on %s" % (v, sig))
            if name == 'lc_cong':
                nb = set(g.neighbors(v))
                e0 = set(tuple(sorted(g.edge_st(e))) for e in g.edges())
                getattr(C, name)(g, v)
                e1 = set(tuple(sorted(g.edge_st(e))) for e in g.edges())
                new = max(g.vertices())
                want = {(a, b) for a in nb for b in nb if a < b} | {(v, new)}
                case.check(e0 ^ e1 == want, "lc:edges", lambda: "%s of %s gives %s" % (what, sig, gen.show(g)))
                case.see("toggled")
            else:
                getattr(C, name)(g, v)
            case.see(name)
        elif name == 'pivot_cong':
            es = sorted(g.edge_st(e) for e in g.edges() if C.is_pivot_edge(g, e))
            if not es:
                continue
            a, b = r.choice(es)
            if r.random() < .5:
                a, b = b, a
            what = "pivot_cong(%s,%s)" % (a, b)
            if any(int(g.type(n)) == 0 for n in list(g.neighbors(a)) + list(g.neighbors(b))):
                case.see("boundary_pivot")
            C.pivot_cong(g, a, b)
            case.see(name)
        elif name == 'unfuse':
            vs = sorted(v for v in g.vertices() if int(g.type(v)) == 1)
            if not vs:
                continue
            v = r.choice(vs)
            what = "unfuse(%s)" % v
            b = {n for n in g.neighbors(v) if int(g.type(n)) == 0}
            ph = g.phase(v)
            w = C.unfuse(g, v)
            case.check(g.phase(v) == 0 and g.phase(w) == ph and set(g.neighbors(w)) == b | {v}, "unfuse:result", lambda: "%s of %s gives %s" % (what, sig, gen.show(g)))
            case.see(name)
            same(case, m, g, what, sig)
            case.note(what, sig)
            break       # no longer graph-like
        else:
            f = C.apply_rand_lc if name == 'rand_lc' else C.apply_rand_pivot
            what = "apply_" + name
            seen = []

            def weights(h, elts):
                seen.append(list(elts))
                k = r.randrange(len(elts))
                return [1.0 if i == k else 0.0 for i in range(len(elts))]
            n0 = any(C.is_lc_vertex(g, v) for v in g.vertices()) if name == 'rand_lc' else any(C.is_pivot_edge(g, e) for e in g.edges())
            if r.random() < .5:
                f(g)
            else:
                f(g, weight_func=weights)
                if seen:
                    case.see("weights")
            case.see(name)
            if not n0:
                case.see("nothing_to_do")
                case.check(gen.show(g) == sig, what + ":nothing", lambda: "%s of %s, where it does not apply, gives %s" % (what, sig, gen.show(g)))
        same(case, m, g, what, sig)
        if gen.show(g) != sig:
            case.note(what, sig)
            case.sample("%s on %s" % (what, sig))


def circ(case, big=False):
    r = case.rng
    c = gen.circuit(r, nq=r.randrange(1, 5), ngates=r.randrange(0, 22), mode=r.choice(['cliffordT', 'clifford', 'mix']))
    g = c.to_graph()
    if r.random() < .75:
        S.full_reduce(g, quiet=True)
    else:
        S.to_graph_like(g)
    if r.random() < .4:
        g.normalize()
    return c, g


def circuit_same(case, m, c, what, sig):
    case.check(ref.close_up_to_scalar(m, gref.circ(c))[0], "circuit:" + what, lambda: "%s of %s gives the circuit %s" % (what, sig, gen.show_circ(c)))


def extracts(case, m, g, what, sig):
    h = g.copy()
    S.full_reduce(h, quiet=True)
    try:
        c = zx.extract_circuit(h)
    except Exception as e:
        case.fail("extract:" + what, "no circuit can be extracted from the result of %s of %s after full_reduce: %r" % (what, sig, e))
    circuit_same(case, m, c, what, sig)


def k_anneal(case):
    r = case.rng
    c, g = circ(case)
    m = gref.circ(c)
    sig = gen.show(g)
    s0 = mon.snapshot(g)
    kw = dict(iters=r.randrange(1, 10), quiet=True)
    if r.random() < .5:
        kw['temp'] = r.choice([0, 1, 25, 1000])
    if r.random() < .5:
        kw['full_reduce_prob'] = r.choice([0, .5, 1])
    if r.random() < .5:
        kw['reset_prob'] = r.choice([0, .5, 1])
    if r.random() < .3:
        kw['cool'] = r.choice([0, .1, .9])
    calls = []
    score = None
    if r.random() < .6:
        exact = r.random() < .6     # scores that do not depend on vertex numbers
        base = r.choice([lambda h: h.num_edges(), lambda h: -h.num_vertices()] if exact else [lambda h: scores.g_wgc(h, g_simplify=True, c_simplify=False), lambda h: r.random()])

        def score(h):
            x = base(h)
            calls.append((x, mon.snapshot(h)))
            return x
        kw['score'] = score
    best, hist = anneal(g, **kw)
    what = "anneal(%s)" % ({k: v for k, v in kw.items() if k != 'score'},)
    case.see("anneal")
    case.check(mon.snapshot(g) == s0, "anneal:argument", lambda: "%s changed its argument %s to %s" % (what, sig, gen.show(g)))
    if best.num_vertices() > 60:
        raise Skip("large")
    same(case, m, best, "anneal", "%s with %s" % (sig, what))
    extracts(case, m, best, "anneal", sig)
    case.check(len(hist) == kw['iters'] and all(a >= b for a, b in zip(hist, hist[1:])), "anneal:history", lambda: "%s has best scores %s" % (what, hist))
    if score is not None:
        low = min(x for x, _ in calls)
        case.check(hist[0] == calls[0][0], "anneal:start", lambda: "%s starts with score %s: %s" % (what, calls[0][0], hist))
        if exact:
            case.check(base(best) <= hist[-1] and base(best) >= low, "anneal:best", lambda: "%s of %s returns a diagram of score %s; best scores %s, scored %s" % (what, sig, base(best), hist, [x for x, _ in calls]))
        if low < calls[0][0]:
            case.see("improved")
    if gen.show(best) != sig:
        case.note("anneal", sig, what)


def k_evolve(case):
    r = case.rng
    c, g = circ(case)
    m = gref.circ(c)
    sig = gen.show(g)
    s0 = mon.snapshot(g)
    x = r.random()
    if x < .3:
        # single actions on pairs of circuit and diagram
        f = r.choice([rand_pivot, rand_lc])
        h = g.copy()
        S.to_graph_like(h)
        s1 = mon.snapshot(h)
        ok, (c2, g2) = f(c, h, r.choice([0, .5, 1]))
        case.check(ok is True, "action:result", lambda: "%s returned %s" % (f.__name__, ok))
        case.check(mon.snapshot(h) == s1, "action:argument", lambda: "%s changed its argument %s" % (f.__name__, sig))
        same(case, m, g2, f.__name__, sig)
        circuit_same(case, m, c2, f.__name__, sig)
        case.see("actions")
        case.note(f.__name__, sig)
        return
    n, gens = r.randrange(2, 5), r.randrange(0, 4)
    if x < .65:
        o = GeneticOptimizer() if r.random() < .5 else GeneticOptimizer(actions=r.choice([[rand_pivot], [rand_lc], [rand_lc, rand_pivot]]))
        res = o.evolve(g, n, gens)
        case.see("evolve")
        case.check(mon.snapshot(g) == s0, "evolve:argument", lambda: "evolve changed its argument %s" % sig)
        same(case, m, res, "evolve", sig)
        extracts(case, m, res, "evolve", sig)
    else:
        seen = []

        def scored(mu):
            seen.append((default_score(mu), mon.snapshot(mu.g_curr)))
            return seen[-1][0]
        o = GeneticOptimizer(score=scored)
        if r.random() < .3:
            n = r.choice([10, 11, 20, 23])
            gens = r.randrange(1, 3)
        best, gen_scores, res = run(o, g, n, gens)
        s = mon.snapshot(res)
        got = sorted({x for x, t in seen if t == s})
        case.check(best[-1] in got and best[-1] == min(x for x, _ in seen), "evolve:best", lambda: "evolving %s with %d mutants for %d generations returns a diagram that was scored %s, the best score is %s" % (sig, n, gens, got, best[-1]))
        case.see("best_returned")
        case.check(len(best) == len(gen_scores) and all(a >= b for a, b in zip(best, best[1:])) and best[-1] == min(gen_scores) and best[0] == gen_scores[0], "evolve:scores", lambda: "evolving %s: best %s of %s" % (sig, best, gen_scores))
        if best[-1] < best[0]:
            case.see("improved")
        same(case, m, res, "evolve", sig)
        case.check(len(o.mutants) == n, "evolve:population", lambda: "%s mutants of %s" % (len(o.mutants), n))
        for mu in o.mutants[:4]:
            circuit_same(case, m, mu.c_curr, "mutant", sig)
            same(case, m, mu.g_curr, "mutant", sig)
            case.see("mutants")
        method = r.choice(['tournament', 'top_half'] + (['top_n'] * 4 if n >= 10 else []))
        before = sorted(mu.score for mu in o.mutants)
        o.select(method)
        after = sorted(mu.score for mu in o.mutants)
        case.see("select:" + method)
        case.check(len(after) == n and set(after) <= set(before) and len(set(id(mu) for mu in o.mutants)) == n, "select:" + method, lambda: "selecting by %s from %s gives %s" % (method, before, after))
        if method == 'top_half':
            case.check(after[0] == before[0] and max(after) <= before[max(n // 2 - 1, 0)], "select:best", lambda: "selecting by %s from %s gives %s" % (method, before, after))
        if method == 'top_n':
            case.check(after[0] == before[0] and max(after) <= before[9], "select:best", lambda: "selecting by %s from %s gives %s" % (method, before, after))
        for mu in o.mutants[:2]:
            circuit_same(case, m, mu.c_curr, "selected", sig)
            case.check(mu.score == default_score(mu), "select:score", lambda: "a selected mutant has score %s, its circuit %s" % (mu.score, default_score(mu)))
    case.note("evolve", sig, n, gens)


def run(o, g, n, gens):
    o.quiet = True
    return o._evolve(g, n, gens)


def k_score(case):
    r = case.rng
    c, g = circ(case)
    w = r.choice([1, 10, 7])
    b = c.to_basic_gates()
    two = sum(1 for x in b.gates if len(set(q for q in (getattr(x, 'control', None), x.target) if q is not None)) > 1)
    case.check(scores.wgc(c, w) == w * two + len(b.gates) - two, "wgc", lambda: "wgc of %s is %s" % (gen.show_circ(c), scores.wgc(c, w)))
    s0 = mon.snapshot(g)
    x = scores.g_wgc(g, w, g_simplify=True, c_simplify=r.random() < .5)
    case.check(mon.snapshot(g) == s0, "g_wgc:argument", lambda: "g_wgc changed its argument %s" % gen.show(g))
    case.check(x >= 0, "g_wgc", lambda: "g_wgc of %s is %s" % (gen.show(g), x))
    case.see("score")
    case.note("score", gen.show_circ(c))


KINDS = {'move': (k_move, 30000, 600000), 'anneal': (k_anneal, 1800, 40000), 'evolve': (k_evolve, 1600, 30000), 'score': (k_score, 1000, 12000)}
