"""P22: hybrid diagrams (spiders connected to ground, i.e. discarded) and circuits with measurements denote quantum channels; rewriting preserves them."""
from fractions import Fraction
import numpy as np
from .. import gen, ref, gref, mon
from ..run import Skip
import pyzx as zx
from pyzx import simplify as S, rules as R, basicrules as B, editor_actions as EA
from pyzx.circuit import Circuit, gates as G
from pyzx.utils import VertexType, EdgeType
from .p02 import PAR
from .p16 import k_ground

RULE = ("random diagrams in which some spiders are discarded (grounds) and circuits with measurements, discards and classical bits x simplification strategy, rule, interactive rule or "
        "editor operation; non-trivial when the diagram changed; distinct by (diagram, operation)")
ASSUMPTIONS = ["grounds are on Z and X spiders, the diagram has no Z-boxes or W nodes", "diagrams are on the default simple-graph backend",
               "a rewrite that would need a parallel edge which simple graphs cannot hold may be refused with a ValueError",
               "floating-point comparison at 1e-7 relative tolerance"]
ANY = ['spider_simp', 'id_simp', 'pivot_simp', 'lcomp_simp', 'gadget_simp', 'supplementarity_simp', 'bialg_simp',
       'phase_free_simp', 'interior_clifford_simp', 'clifford_simp', 'reduce_scalar', 'full_reduce', 'to_gh', 'to_rg', 'to_graph_like']
GL = ANY + ['pivot_gadget_simp', 'pivot_boundary_simp', 'copy_simp']
HEAVY = ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'reduce_scalar', 'spider_simp', 'to_graph_like']
BASIC = ['color_change', 'copy_X', 'copy_Z', 'pi_commute_X', 'pi_commute_Z', 'remove_id', 'strong_comp', 'fuse']
EOPS = ['spider', 'to_z', 'to_x', 'rem_id', 'id_z', 'copy', 'pauli', 'bialgebra', 'euler', 'lcomp', 'pivot', 'had2edge', 'fuse_hbox', 'mult_hbox']
EOPS = [o for o in EOPS if o in EA.operations]
NEED = ["op:ground"] + ["strategy:" + s for s in GL if s != 'bialg_simp'] + ["rule:" + s for s in ('spider', 'ids', 'pivot', 'lcomp', 'pivot_gadget', 'pivot_boundary', 'gadgets', 'copy')] + \
       ["basic:" + s for s in BASIC] + ["measured", "discarded", "bits", "compress", "reduced", "reset", "composed", "tensored", "refused:from_graph", "refused:extract", "refused:tensor",
                                        "refused:verify", "unspider", "ground_kept", "isolated"] + ["editor:" + o for o in ('spider', 'rem_id', 'pauli', 'copy', 'euler')]


def show(g):
    return gen.show(g) + " grounds%s" % sorted(g.grounds())


def grounded(case, g, p=None):
    r = case.rng
    p = r.choice([.15, .25, .5]) if p is None else p
    bare = r.random() < .5
    vs = [v for v in sorted(g.vertices()) if int(g.type(v)) in (1, 2)]
    if not vs:
        raise Skip("no spider")
    chosen = [v for v in vs if r.random() < p] or [r.choice(vs)]
    for v in chosen:
        if bare:
            g.set_phase(v, 0)
        g.set_ground(v)
    return g


def wide(g):
    return g.num_vertices() > 16 or g.num_edges() > 34


def chan(g):
    return ref.channel(g)


def preserved(case, what, before, g, sig):
    s = mon.structure(g)
    if s is not None:
        case.fail("structure:" + what, "after %s the diagram object is inconsistent: %s" % (what, s))
    gr = set(g.grounds())
    case.check(gr <= set(g.vertices()) and all(int(g.type(v)) in (1, 2) for v in gr), "grounds:" + what, lambda: "after %s on %s grounds %s" % (what, sig, gr))
    after = chan(g)
    case.see("channels_compared")
    if not ref.close(before, after):
        kind = "shape" if before.shape != after.shape else ("scalar" if ref.close_up_to_scalar(before, after)[0] else "map")
        case.fail("%s:%s" % (kind, what), "%s changed the channel of %s to %s: %s" % (what, sig, show(g), ref.describe(before, after)))
    return after


def bipartite(r):
    """Phase-free spiders of alternating colours (where the bialgebra applies), created in any order."""
    n = r.randrange(2, 8)
    g = zx.Graph()
    ty = [r.choice([VertexType.Z, VertexType.X]) for _ in range(n)]
    vs = [g.add_vertex(t, r.randrange(4), r.randrange(5)) for t in ty]
    p = r.choice([.3, .5, .8])
    for i in range(n):
        for j in range(i):
            if ty[i] != ty[j] and r.random() < p:
                g.add_edge((vs[i], vs[j]), EdgeType.SIMPLE)
    outs = []
    for v in r.sample(vs, r.randrange(min(3, n) + 1)):
        o = g.add_vertex(VertexType.BOUNDARY, 0, 9)
        g.add_edge((v, o), EdgeType.SIMPLE)
        outs.append(o)
    gen.split(r, g, outs)
    return g


def hybrid(case, gl=None, big=False):
    r = case.rng
    case.hint = None
    if not gl and r.random() < .08:
        case.hint = 'bialg'
        return grounded(case, bipartite(r), r.choice([0, 0, .2]))
    if (r.random() < .6) if gl is None else gl:
        g = gen.graphlike(r, n_in=r.randrange(2), n_out=r.randrange(3), n=r.randrange(1, 8), gadgets=r.randrange(4), phases=r.choice(['mix', 'clifford', 'cliffordT', 'pauli', 'wild']), p=r.choice([None, .2, .5]))
    else:
        g = gen.diagram(r, n_in=r.randrange(2), n_out=r.randrange(3), n_spiders=r.randrange(1, 9), phases=r.choice(['mix', 'clifford', 'cliffordT', 'pauli', 'wild']),
                        ph=r.choice([.1, .4, .8]), px=r.choice([0, .3, .5]), isolated=r.choice([.05, .3]))
    if wide(g):
        raise Skip("large")
    zs = [v for v in sorted(g.vertices()) if int(g.type(v)) == 1]
    if len(zs) > 1 and r.random() < .3:
        # what the matchers look for: leaves, twin gadgets, supplementary pairs
        nb = r.sample(zs, r.randrange(1, min(4, len(zs) + 1)))
        what = r.choice(['leaf', 'gadgets', 'gadgets', 'supplementary'])
        H = EdgeType.HADAMARD
        if what == 'leaf':
            for _ in range(r.choice([1, 2])):
                v = g.add_vertex(VertexType.X if r.random() < .7 else VertexType.Z, phase=r.choice([0, 1]))
                g.add_edge((v, r.choice(nb)), EdgeType.SIMPLE if int(g.type(v)) == 2 else H)
        elif what == 'gadgets' and len(nb) > 1:
            for _ in range(2):
                a, l = g.add_vertex(VertexType.Z, phase=r.choice([0, 0, 1])), g.add_vertex(VertexType.Z, phase=gen.phase(r, 'mix'))
                g.add_edge((a, l), H)
                for n in nb:
                    g.add_edge((a, n), H)
        elif what == 'supplementary':
            a = Fraction(r.choice([1, 3, 5, 7]), 4)
            pair = []
            for ph in (a, r.choice([-a, 1 + a, 1 - a]) % 2):
                v = g.add_vertex(VertexType.Z, phase=ph)
                pair.append(v)
                for n in nb:
                    g.add_edge((v, n), H)
            if r.random() < .5:
                g.add_edge(tuple(pair), H)
            case.hint = 'supplementarity'
            if wide(g):
                raise Skip("large")
            if r.random() < .4:
                # one of the pair is discarded
                g.set_ground(r.choice(pair))
                return g
    if wide(g):
        raise Skip("large")
    return grounded(case, g)


def k_simp(case):
    r = case.rng
    gl = r.random() < .6
    g = hybrid(case, gl)
    sig = show(g)
    m = chan(g)
    if any(g.vertex_degree(v) == 0 for v in g.grounds()):
        case.see("isolated")
    for i in range(r.choice([1, 1, 2, 3])):
        name = r.choice(HEAVY if r.random() < .35 else (GL if gl and i == 0 else ANY))
        if case.hint and i == 0 and r.random() < .5:
            name = case.hint + '_simp'
        s0 = show(g)
        if name in ('to_gh', 'to_rg', 'to_graph_like'):
            getattr(S, name)(g)
        elif name.replace('_simp', '_iter') != name and hasattr(S, name.replace('_simp', '_iter')) and r.random() < .15:
            n = 0
            for g2, step in getattr(S, name.replace('_simp', '_iter'))(g):
                n += 1
                m = preserved(case, name + " step", m, g2, s0)
                if n > 500:
                    case.fail("no-termination:" + name, "%s of %s" % (name, s0))
        else:
            kw = {}
            if r.random() < .15 and name in ('spider_simp', 'id_simp', 'pivot_simp', 'lcomp_simp', 'full_reduce', 'clifford_simp'):
                salt = r.randrange(1000)
                kw['matchf'] = lambda x: hash((str(x), salt)) % 10 < 6
            getattr(S, name)(g, quiet=True, **kw)
        m = preserved(case, name, m, g, s0)
        if show(g) != s0:
            case.see("strategy:" + name)
            case.note(name, s0)
            case.sample("%s on %s" % (name, s0))
        if g.grounds():
            case.see("ground_kept")


def k_teleport(case):
    r = case.rng
    g = hybrid(case, True)
    sig = show(g)
    m = chan(g)
    s0 = mon.snapshot(g)
    h = S.teleport_reduce(g, quiet=True)
    case.check(mon.snapshot(g) == s0, "teleport:argument", lambda: "teleport_reduce changed its argument %s" % sig)
    d = chan(h)
    case.check(ref.close(m, d) or ref.close_up_to_scalar(m, d)[0], "map:teleport_reduce", lambda: "teleport_reduce of %s gives %s" % (sig, show(h)))
    case.check(set(h.grounds()) == set(g.grounds()) and h.num_vertices() == g.num_vertices(), "teleport:structure", lambda: "teleport_reduce of %s gives %s" % (sig, show(h)))
    case.see("teleport")


def k_rule(case):
    r = case.rng
    gl = r.random() < .6
    g = hybrid(case, gl)
    sig = show(g)
    m = chan(g)
    names = ['bialg', 'spider', 'pivot', 'lcomp', 'ids', 'gadgets', 'supplementarity'] + (['copy', 'pivot_gadget', 'pivot_boundary'] * 2 if gl else [])
    name = case.hint if case.hint and r.random() < .5 else r.choice(names)
    if r.random() < .1:
        # un-fusing: the legs move, the ground stays somewhere
        vs = [v for v in sorted(g.vertices()) if int(g.type(v)) in (1, 2)]
        u = r.choice(vs)
        nb = [n for n in sorted(g.neighbors(u)) if len(list(g.edges(u, n))) == 1]
        sub = [n for n in nb if r.random() < .5]
        args = [u, sub] + ([gen.phase(r, 'mix')] if r.random() < .7 else [])
        try:
            R.unspider(g, args)
        except ValueError as e:
            if 'unreducible' in str(e):
                raise Skip()
            raise
        case.see("unspider")
        preserved(case, 'unspider', m, g, sig)
        return
    par, single, rule, dom = PAR[name]
    ms = list(single(g)) if single is not None and r.random() < .25 else list(par(g))
    if len(ms) > 1 and name != 'gadgets' and r.random() < .3:
        ms = r.sample(ms, r.randrange(1, len(ms)))
    if ms:
        try:
            R.apply_rule(g, rule, ms)
        except ValueError as e:
            if 'unreducible' in str(e):
                raise Skip()
            raise
        case.see("rule:" + name)
        case.note("rule", name, sig)
    preserved(case, "rule " + name, m, g, sig)


def k_basic(case):
    r = case.rng
    g = hybrid(case, False if r.random() < .8 else None)
    m = chan(g)
    for _ in range(3):
        name = r.choice(BASIC)
        vs = sorted(g.vertices())
        if name in ('strong_comp', 'fuse'):
            es = sorted(g.edge_st(e) for e in g.edges())
            if not es:
                continue
            locs = list(r.choice(es))
            r.shuffle(locs)
            if locs[0] == locs[1]:
                continue
        else:
            leaves = [v for v in vs if g.vertex_degree(v) == 1 and int(g.type(v)) in (1, 2)]
            locs = [r.choice(leaves if leaves and name.startswith('copy') and r.random() < .7 else sorted(g.grounds()) if g.grounds() and r.random() < .4 else vs)]
        sig = show(g)
        c = bool(getattr(B, 'check_' + name)(g, *locs))
        try:
            ok = bool(getattr(B, name)(g, *locs))
        except ValueError as e:
            if 'unreducible' in str(e):
                raise Skip()
            raise
        case.check(c == ok, "check-disagrees:" + name, lambda: "check_%s%s is %s but the rule returned %s on %s" % (name, locs, c, ok, sig))
        m = preserved(case, "%s%s" % (name, "" if ok else " (refused)"), m, g, sig)
        if ok:
            case.see("basic:" + name)
            case.note("basic", name, sig, tuple(locs))


def k_editor(case):
    r = case.rng
    g = hybrid(case)
    m = chan(g)
    for _ in range(2):
        op = r.choice(EOPS)
        d = EA.operations[op]
        sig = show(g)
        univ = list(g.edges()) if d["type"] == EA.MATCHES_EDGES else list(g.vertices())
        p = r.choice([1, 1, .5])
        sel = set(x for x in univ if r.random() < p)
        ms = d["matcher"](g, lambda x: x in sel)
        if not ms:
            continue
        try:
            etab, rv, re, _ = d["rule"](g, ms)
            g.remove_edges(re)
            g.remove_vertices(rv)
            g.add_edge_table(etab)
        except ValueError as e:
            if 'unreducible' in str(e):
                raise Skip()
            raise
        m = preserved(case, "editor " + op, m, g, sig)
        case.see("editor:" + op)
        case.note("editor", op, sig)


# ---------------------------------------------------------------- circuits
def superop(gates, nq, nb):
    """Channel of a circuit with measurements as an array with axes out(n), in(n), out'(n), in'(n), n = qubits then bits."""
    n = nq + nb
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * (2 * n))
    big = np.einsum(t.reshape(2 ** n, 2 ** n), [0, 1], t.reshape(2 ** n, 2 ** n), [2, 3], [0, 1, 2, 3]).astype(complex)

    def op(k, big, l=None):   # K rho L^dagger
        l = k if l is None else l
        return np.einsum('ab,bcde,fd->acfe', k, big, l.conj(), optimize=True)

    def on(q, m):
        return gref_embed(m, q, n)
    P = [np.diag([1, 0]).astype(complex), np.diag([0, 1]).astype(complex)]
    X = np.array([[0, 1], [1, 0]], dtype=complex)

    def reset(b, big):
        k0 = np.array([[1, 0], [0, 0]], dtype=complex)
        k1 = np.array([[0, 1], [0, 0]], dtype=complex)
        return op(on(b, k0), big) + op(on(b, k1), big)
    for g in gates:
        if isinstance(g, G.Measurement):
            if g.result_bit is not None:
                b = nq + g.result_bit
                big = reset(b, big)
                big = op(on(g.target, P[0]), big) + op(on(b, X) @ on(g.target, P[1]), big)
            else:
                big = op(on(g.target, P[0]), big) + op(on(g.target, P[1]), big)
        elif isinstance(g, G.DiscardBit):
            big = reset(nq + g.target, big)
        else:
            u = gref.unitary([g], n)
            big = op(u, big)
    big = big.transpose(0, 1, 2, 3)
    return big.reshape((2,) * (4 * n))


def gref_embed(m, q, n):
    return np.kron(np.kron(np.eye(2 ** q), m), np.eye(2 ** (n - q - 1)))


GATES = ['CNOT', 'CZ', 'H', 'S', 'T', 'Z', 'NOT', 'ZPhase', 'XPhase', 'SWAP']


def measured(r, nq=None, nb=None, n=None):
    nq = r.randrange(1, 4) if nq is None else nq
    nb = r.choice([0, 1, 1, 2]) if nb is None else nb
    if nq + nb > 4:
        nb = 4 - nq
    c = Circuit(nq, bit_amount=nb)
    for _ in range(r.randrange(1, 8) if n is None else n):
        x = r.random()
        if x < .3:
            c.add_gate(G.Measurement(r.randrange(nq), r.randrange(nb) if nb and r.random() < .7 else None))
        elif x < .36 and nb:
            c.add_gate(G.DiscardBit(r.randrange(nb)))
        else:
            c.add_gate(gen.gate(r, nq, ['CNOT', 'CZ', 'HAD', 'S', 'T', 'Z', 'NOT', 'ZPhase', 'XPhase'] if nq > 1 else ['HAD', 'S', 'T', 'Z', 'NOT', 'ZPhase', 'XPhase'], 'mix'))
    return c


def scirc(c):
    return "Circuit(%d qubits, %d bits): %s" % (c.qubits, c.bits, " ".join(repr(mon.gate_key(x)) if isinstance(x, (G.Measurement, G.DiscardBit)) else str(x) for x in c.gates))


def sup(c):
    return superop(c.gates, c.qubits, c.bits)


def agree(case, what, want, c, g):
    """want and the channel of diagram g agree up to a positive factor (global scalars of circuits are not tracked)"""
    got = chan(g)
    case.see("channels_compared")
    ok, k = ref.close_up_to_scalar(want, got)
    case.check(got.shape == want.shape and ok, what, lambda: "%s: %s gives %s: %s" % (what, scirc(c), show(g), ref.describe(want, got)))


def k_circuit(case):
    r = case.rng
    c = measured(r)
    want = sup(c)
    s0 = mon.circ_snapshot(c)
    if any(isinstance(x, G.Measurement) for x in c.gates):
        case.see("measured")
    if any(isinstance(x, G.DiscardBit) for x in c.gates):
        case.see("reset")
    if c.bits:
        case.see("bits")
    x = r.random()
    if x < .3:
        g = c.to_graph(compress_rows=r.random() < .5)
        case.see("compress")
        agree(case, "to_graph", want, c, g)
        case.check(len(g.inputs()) == len(g.outputs()) == c.qubits + c.bits, "to_graph:io", lambda: "boundaries of %s" % scirc(c))
        if r.random() < .7 and g.num_vertices() < 24:
            m = chan(g)
            sig = show(g)
            name = r.choice(HEAVY)
            if name == 'to_graph_like':
                S.to_graph_like(g)
            else:
                getattr(S, name)(g, quiet=True)
            preserved(case, "circuit " + name, m, g, sig)
            case.see("reduced")
    elif x < .5:
        d = c.copy()
        agree(case, "copy", want, c, d.to_graph())
        d.add_gate(G.Measurement(0, None))
        case.check(mon.circ_snapshot(c) == s0, "copy:shared", "a copy shares gates with the original")
        b = c.to_basic_gates()
        agree(case, "to_basic_gates", want, c, b.to_graph())
    elif x < .8:
        # appending with masks for qubits and bits
        nq, nb = r.randrange(c.qubits, 4), c.bits
        nb = r.randrange(c.bits, c.bits + 2)
        if nq + nb > 4:
            raise Skip("large")
        d = measured(r, nq, nb, r.randrange(4))
        mask, bmask = r.sample(range(nq), c.qubits), r.sample(range(nb), c.bits)
        gates = []
        for x in c.gates:
            if isinstance(x, G.Measurement):
                gates.append(G.Measurement(mask[x.target], None if x.result_bit is None else bmask[x.result_bit]))
            elif isinstance(x, G.DiscardBit):
                gates.append(G.DiscardBit(bmask[x.target]))
            else:
                gates.append(x.reposition(mask))
        w = superop(list(d.gates) + gates, nq, nb)
        sig = scirc(d)
        d.add_circuit(c, mask, bmask)
        agree(case, "add_circuit", w, c, d.to_graph())
        case.see("composed")
    else:
        d = measured(r, 1, r.choice([0, 1]), r.randrange(1, 4))
        if c.qubits + c.bits + d.qubits + d.bits > 4:
            raise Skip("large")
        t = c.tensor(d)
        w = superop([x.reposition(list(range(c.qubits)), list(range(c.bits))) if False else x for x in c.gates] + [move(x, c.qubits, c.bits) for x in d.gates], c.qubits + d.qubits, c.bits + d.bits)
        agree(case, "tensor", w, t, t.to_graph())
        case.see("tensored")
    case.check(mon.circ_snapshot(c) == s0, "circuit:argument", lambda: "the circuit %s was changed" % scirc(c))
    case.note("circuit", scirc(c))
    if any(isinstance(x, (G.Measurement, G.DiscardBit)) for x in c.gates):
        case.see("discarded")


def move(x, q, b):
    if isinstance(x, G.Measurement):
        return G.Measurement(x.target + q, None if x.result_bit is None else x.result_bit + b)
    if isinstance(x, G.DiscardBit):
        return G.DiscardBit(x.target + b)
    return x.reposition([q])


def k_refuse(case):
    """What only exists for pure diagrams is refused, never computed as if nothing were discarded."""
    r = case.rng
    which = r.choice(['from_graph', 'extract', 'tensor', 'verify'])
    if which in ('from_graph', 'extract', 'verify'):
        c = measured(r, nb=0 if r.random() < .7 else None)
        if not any(isinstance(x, G.Measurement) for x in c.gates):
            c.add_gate(G.Measurement(r.randrange(c.qubits), None))
        want = sup(c)
    if which == 'verify':
        d = c.copy()
        if r.random() < .5:
            d = Circuit(c.qubits, bit_amount=c.bits)
        try:
            v = c.verify_equality(d) if r.random() < .5 else d.verify_equality(c)
        except NotImplementedError:
            case.see("refused:verify")
            return
        case.check(v in (None, False) and not ref.close_up_to_scalar(want, sup(d))[0] if not v else ref.close_up_to_scalar(want, sup(d))[0], "verify",
                   lambda: "verify_equality of %s and %s is %s" % (scirc(c), scirc(d), v))
        return
    if which == 'tensor':
        g = hybrid(case)
        try:
            t = g.to_tensor()
        except (ValueError, NotImplementedError, TypeError):
            case.see("refused:tensor")
            return
        case.fail("tensor", "to_tensor of %s gives %s" % (show(g), t.shape))
    g = c.to_graph()
    red = which == 'extract' and r.random() < .5
    if red:
        S.full_reduce(g, quiet=True)
        if not g.grounds():
            raise Skip("nothing discarded")
    elif which == 'extract':
        S.to_graph_like(g)
    sig = show(g)
    how = r.choice(['extract_circuit', 'extract_circuit', 'extract_simple', 'lookahead_fast', 'extract_clifford_normal_form']) if which == 'extract' else 'from_graph'
    try:
        d = Circuit.from_graph(g) if which != 'extract' else (zx.extract_circuit(g, quiet=True) if how == 'extract_circuit' else getattr(zx.extract, how)(g))
    except Exception as e:
        case.see("refused:" + which)
        return
    case.check(d.qubits == c.qubits + c.bits and ref.close_up_to_scalar(want, superop(d.gates, d.qubits, 0))[0], how, lambda: "%s of %s, which discards, gives %s" % (how, sig, scirc(d)))


KINDS = {'simp': (k_simp, 12000, 300000), 'rule': (k_rule, 8000, 200000), 'basic': (k_basic, 8000, 150000), 'editor': (k_editor, 6000, 100000), 'teleport': (k_teleport, 1500, 30000),
         'circuit': (k_circuit, 2500, 40000), 'refuse': (k_refuse, 1500, 20000), 'ground': (k_ground, 3000, 40000)}
