"""P02: every rewrite rule of the rule library is sound on every match its matcher finds."""
from fractions import Fraction
from .. import gen, ref, mon
from ..run import Skip
import pyzx as zx
from pyzx import rules as R, simplify as S
from pyzx.graph import Graph
from pyzx.utils import VertexType, EdgeType

RULE = ("random diagrams x rewrite rule x match selection (first match, all parallel matches, filtered, random subset of the matches, "
        "bounded number of matches); non-trivial when at least one match was applied; distinct by (diagram, rule, matches)")
ASSUMPTIONS = ["rules are driven on simple-graph diagrams meeting their documented precondition (graph-like for pivot_gadget, pivot_boundary, copy, "
               "phase-polynomial rule)", "a rewrite that would need a parallel edge which simple graphs cannot hold may be refused with an error",
               "floating-point comparison at 1e-7 relative tolerance"]
RULES = ['bialg', 'spider', 'unspider', 'z_to_z_box', 'w_fusion', 'pivot', 'lcomp', 'pivot_gadget', 'pivot_boundary', 'ids',
         'gadgets', 'supplementarity', 'copy', 'phasepoly']
NEED = ["maps_compared", "filters_honoured"] + ["applied:" + r for r in RULES]

PAR = {'bialg': (R.match_bialg_parallel, R.match_bialg, R.bialg, 'e'), 'spider': (R.match_spider_parallel, R.match_spider, R.spider, 'e'),
       'z_to_z_box': (R.match_z_to_z_box_parallel, R.match_z_to_z_box, R.z_to_z_box, 'v'),
       'w_fusion': (R.match_w_fusion_parallel, R.match_w_fusion, R.w_fusion, 'e'),
       'pivot': (R.match_pivot_parallel, R.match_pivot, R.pivot, 'e'), 'lcomp': (R.match_lcomp_parallel, R.match_lcomp, R.lcomp, 'v'),
       'ids': (R.match_ids_parallel, R.match_ids, R.remove_ids, 'v'), 'pivot_gadget': (R.match_pivot_gadget, None, R.pivot, 'e'),
       'pivot_boundary': (R.match_pivot_boundary, None, R.pivot, 'v'), 'gadgets': (R.match_phase_gadgets, None, R.merge_phase_gadgets, 'v'),
       'supplementarity': (R.match_supplementarity, None, R.apply_supplementarity, 'v'), 'copy': (R.match_copy, None, R.apply_copy, 'v')}
# matchers that prepare the diagram for their matches: all returned matches must then be applied or the preparation alone must be sound
NOTUM = ('gadgets', 'supplementarity', 'copy')


def apply_one(case, g, name, m0):
    r = case.rng
    par, single, rule, dom = PAR[name]
    sig = gen.show(g)
    mode = r.choice(['all', 'all', 'single', 'filter', 'subset', 'num'])
    if mode == 'single' and single is not None:
        ms = single(g)
        case.check(len(ms) <= 1, "matches:single:" + name, lambda: "single-match matcher returned %d matches" % len(ms))
    elif mode == 'filter':
        if dom == 'v':
            sel = set(v for v in g.vertices() if r.random() < .6)
        else:
            sel = set(e for e in g.edges() if r.random() < .6)
        ms = par(g, lambda x: x in sel)
        for x in ms:
            key = x if name == 'z_to_z_box' else x[0][0] if name == 'pivot_boundary' else x[0] if dom == 'v' else x[0] if name.startswith('pivot') else x[:2]
            if dom == 'e':
                key = (min(key), max(key))
            if name != 'supplementarity':
                case.check(key in sel, "filter:" + name, lambda: "match %s is at %s, which the filter excludes" % (x, key))
                case.see("filters_honoured")
    elif mode == 'num' and name not in NOTUM:
        num = r.randrange(0, 3)
        ms = par(g, num=num)
        case.check(len(ms) <= num, "num:" + name, lambda: "asked for at most %d matches, got %d" % (num, len(ms)))
    else:
        ms = par(g)
    ms = list(ms)
    if mode == 'subset' and len(ms) > 1 and name != 'gadgets':   # its matcher already adjusts the scalar for all its matches
        ms = r.sample(ms, r.randrange(1, len(ms)))
    if not ms:
        # finding matches alone must not have disturbed the diagram (some matchers do prepare, soundly)
        mon.preserved(case, "match " + name, m0, g)
        case.see("no_match:" + name)
        return m0, 0
    try:
        R.apply_rule(g, rule, ms)
    except ValueError as e:
        if 'unreducible' in str(e):
            raise Skip()
        raise
    # converting to Z-boxes rounds the labels to 8 digits
    rounded = any(int(g.type(v)) == 6 for v in g.vertices()) or name == 'z_to_z_box'
    m1 = mon.preserved(case, name, m0, g, atol=1e-6 if rounded else 1e-11)
    case.see("applied:" + name)
    case.see("matches_applied", len(ms))
    if len(ms) > 1:
        case.see("parallel:" + name)
    case.note(sig, name, repr(ms))
    case.sample("%s %s on %s" % (name, str(ms)[:100], sig))
    return m1, len(ms)


def k_zx(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(1, 13), phases=r.choice(['mix', 'clifford', 'cliffordT', 'wild', 'pauli']),
                    ph=r.choice([0.1, 0.4, 0.8, 1]), px=r.choice([0, 0.3, 0.5]))
    m = ref.matrix(g)
    for _ in range(3):
        m, n = apply_one(case, g, r.choice(['bialg', 'spider', 'pivot', 'lcomp', 'ids', 'gadgets', 'supplementarity', 'z_to_z_box' if r.random() < .2 else 'ids']), m)


def k_gl(case):
    r = case.rng
    g = gen.graphlike(r, n=r.randrange(1, 12), phases=r.choice(['mix', 'clifford', 'cliffordT', 'wild', 'pauli']), gadgets=r.randrange(0, 5),
                      p=r.choice([None, .15, .3]))
    m = ref.matrix(g)
    apply_one(case, g, r.choice(['pivot', 'lcomp', 'gadgets', 'supplementarity', 'copy', 'pivot_gadget', 'pivot_boundary', 'ids', 'pivot_gadget', 'pivot_boundary']), m)


def k_sparse(case):
    """Long thin graph-like diagrams: many non-interacting matches at once."""
    r = case.rng
    g = Graph()
    n = r.randrange(6, 22)
    vs = [g.add_vertex(VertexType.Z, 0, i, phase=gen.phase(r, r.choice(['pauli', 'clifford', 'mix']))) for i in range(n)]
    for i in range(1, n):
        if r.random() < .93:
            g.add_edge((vs[i - 1], vs[i]), EdgeType.HADAMARD)
        if i > 2 and r.random() < .12:
            g.add_edge((vs[i - 3], vs[i]), EdgeType.HADAMARD)
    bs = []
    for v in r.sample(vs, r.randrange(0, min(5, n))):
        b = g.add_vertex(VertexType.BOUNDARY, len(bs), n)
        g.add_edge((b, v), EdgeType.SIMPLE if r.random() < .85 else EdgeType.HADAMARD)
        bs.append(b)
    k = r.randrange(0, len(bs) + 1)
    g.set_inputs(tuple(bs[:k]))
    g.set_outputs(tuple(bs[k:]))
    m = ref.matrix(g)
    apply_one(case, g, r.choice(['pivot', 'lcomp', 'pivot_gadget', 'pivot_boundary', 'ids', 'copy', 'supplementarity']), m)


def k_chain(case):
    """Long chains of plain-connected spiders of both colours: spider fusion / identity removal in parallel."""
    r = case.rng
    g = Graph()
    n = r.randrange(3, 20)
    vs = []
    for i in range(n):
        vs.append(g.add_vertex(VertexType.X if r.random() < .3 else VertexType.Z, 0, i, phase=gen.phase(r, 'zero' if r.random() < .5 else 'mix')))
    for i in range(1, n):
        if r.random() < .95:
            g.add_edge((vs[i - 1], vs[i]), EdgeType.HADAMARD if r.random() < .25 else EdgeType.SIMPLE)
        if i > 1 and r.random() < .2:
            g.add_edge((vs[i - 2], vs[i]), EdgeType.HADAMARD if r.random() < .4 else EdgeType.SIMPLE)
    bs = []
    for v in r.sample(vs, r.randrange(0, min(5, n))):
        b = g.add_vertex(VertexType.BOUNDARY, len(bs), n)
        g.add_edge((b, v), EdgeType.SIMPLE if r.random() < .7 else EdgeType.HADAMARD)
        bs.append(b)
    gen.split(r, g, bs)
    m = ref.matrix(g)
    apply_one(case, g, r.choice(['spider', 'ids', 'bialg', 'spider']), m)


def k_boxes(case):
    """Z-boxes and W nodes."""
    r = case.rng
    fam = r.choice(['ZXB', 'ZXB', 'ZXW', 'ZXHB', 'ZW', 'WW'])
    g = gen.mixed(r, kinds=fam, n=r.randrange(1, 9))
    m = ref.matrix(g)
    names = ['spider', 'z_to_z_box', 'ids', 'bialg'] if 'W' not in fam else ['w_fusion', 'w_fusion', 'spider', 'ids']
    for _ in range(2):
        m, n = apply_one(case, g, r.choice(names), m)


def k_wchain(case):
    """Trees of W nodes."""
    r = case.rng
    g = Graph()
    n = r.randrange(2, 6)
    ws = []
    for i in range(n):
        a = g.add_vertex(VertexType.W_INPUT, i, 1)
        b = g.add_vertex(VertexType.W_OUTPUT, i, 2)
        g.add_edge((a, b), EdgeType.W_IO)
        ws.append((a, b))
    bs = []
    for i, (a, b) in enumerate(ws):
        if i and r.random() < .8:
            g.add_edge((ws[r.randrange(i)][1], a), EdgeType.SIMPLE if r.random() < .85 else EdgeType.HADAMARD)
        else:
            o = g.add_vertex(VertexType.BOUNDARY, i, 0)
            g.add_edge((o, a))
            bs.append(o)
        for _ in range(r.randrange(0, 3)):
            if r.random() < .6 and len(bs) < 6:
                o = g.add_vertex(VertexType.BOUNDARY, i, 3)
                bs.append(o)
            else:
                o = g.add_vertex(r.choice([VertexType.Z, VertexType.X]), i, 3, phase=gen.phase(r, 'mix'))
            g.add_edge((b, o), EdgeType.SIMPLE if r.random() < .8 else EdgeType.HADAMARD)
    gen.split(r, g, bs)
    m = ref.matrix(g)
    apply_one(case, g, 'w_fusion', m)


def k_unspider(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(1, 9), phases=r.choice(['mix', 'wild'])) if r.random() < .6 else gen.graphlike(r)
    m = ref.matrix(g)
    sig = gen.show(g)
    cand = [v for v in g.vertices() if int(g.type(v)) in (1, 2)]
    if not cand:
        raise Skip()
    v = r.choice(cand)
    nb = list(g.neighbors(v))
    sub = r.sample(nb, r.randrange(0, len(nb) + 1))
    args = [v, sub] + ([gen.phase(r, 'mix')] if r.random() < .6 else [])
    p0 = g.phase(v)
    kw = {}
    if r.random() < .5:
        kw = dict(qubit=r.randrange(3), row=r.randrange(1, 5))
    u = R.unspider(g, args, **kw)
    case.check(set(g.neighbors(u)) == set(sub) | {v}, "neighbours:unspider", lambda: "new spider has neighbours %s, wanted %s" % (set(g.neighbors(u)), sub))
    want = args[2] % 2 if len(args) == 3 else p0
    case.check(g.phase(u) == want, "phase:unspider", lambda: "new spider has phase %s, wanted %s" % (g.phase(u), want))
    mon.preserved(case, 'unspider', m, g)
    case.see("applied:unspider")
    case.note(sig, 'unspider', repr(args))


def k_supp(case):
    """Pairs of spiders with equal neighbourhoods and (anti)equal phases."""
    r = case.rng
    g = Graph()
    n = r.randrange(1, 6)
    base = [g.add_vertex(VertexType.Z, i, 1, phase=gen.phase(r, 'mix')) for i in range(n)]
    outs = []
    for b in base:
        if r.random() < 0.5:
            o = g.add_vertex(VertexType.BOUNDARY, len(outs), 5)
            g.add_edge((b, o), EdgeType.HADAMARD if r.random() < .2 else EdgeType.SIMPLE)
            outs.append(o)
    for i in range(n):
        for j in range(i):
            if r.random() < 0.3:
                g.add_edge((base[i], base[j]), EdgeType.HADAMARD)
    al = gen.phase(r, 'wild')
    for grp in range(r.randrange(1, 3)):
        nb = r.sample(base, r.randrange(1, n + 1))
        prev = None
        for k in range(r.randrange(2, 4)):
            q = r.choice([al, -al, al + 1, 1 - al, gen.phase(r, 'wild'), Fraction(1, 2), Fraction(3, 2), 0])
            v = g.add_vertex(VertexType.Z, -1, 2 + k, phase=q % 2)
            for b in nb:
                g.add_edge((v, b), EdgeType.HADAMARD)
            if prev is not None and r.random() < 0.3:
                g.add_edge((prev, v), EdgeType.HADAMARD)
            prev = v
    gen.split(r, g, outs)
    m = ref.matrix(g)
    apply_one(case, g, r.choice(['supplementarity', 'supplementarity', 'lcomp', 'gadgets']), m)


def k_copy(case):
    """Graph-like diagrams with many 0/pi states attached: copy territory."""
    r = case.rng
    g = gen.graphlike(r, n=r.randrange(2, 8), gadgets=0, p=r.choice([.15, .4]))
    sp = [v for v in g.vertices() if int(g.type(v)) == 1]
    for _ in range(r.randrange(1, 4)):
        v = g.add_vertex(VertexType.Z, 0, 3, phase=r.choice([0, 1]))
        g.add_edge((v, r.choice(sp)), EdgeType.HADAMARD)
    m = ref.matrix(g)
    apply_one(case, g, 'copy', m)


def k_bialg(case):
    """Bipartite phase-free diagrams and products of many of them: parallel bialgebra matches."""
    r = case.rng
    g = Graph()
    outs = []
    for comp in range(r.randrange(1, 4)):
        a = [g.add_vertex(VertexType.Z, i, 1) for i in range(r.randrange(1, 3))]
        b = [g.add_vertex(VertexType.X, i, 2) for i in range(r.randrange(1, 3))]
        for x in a:
            for y in b:
                if r.random() < .8:
                    g.add_edge((x, y), EdgeType.HADAMARD if r.random() < 0.06 else EdgeType.SIMPLE)
        for x in a + b:
            for _ in range(r.randrange(0, 3)):
                t = VertexType.X if int(g.type(x)) == 1 else VertexType.Z
                u = g.add_vertex(t, 0, 3)
                g.add_edge((x, u), EdgeType.HADAMARD if r.random() < 0.06 else EdgeType.SIMPLE)
                if r.random() < .6 and len(outs) < 8:
                    o = g.add_vertex(VertexType.BOUNDARY, len(outs), 4)
                    g.add_edge((o, u))
                    outs.append(o)
    gen.split(r, g, outs)
    m = ref.matrix(g)
    apply_one(case, g, 'bialg', m)


def k_gadgets(case):
    """Phase gadgets with coinciding target sets, several groups at once."""
    r = case.rng
    g = gen.graphlike(r, n=r.randrange(2, 6), gadgets=0, n_in=r.randrange(0, 2), n_out=r.randrange(0, 3), phases='cliffordT')
    sp = [v for v in g.vertices() if int(g.type(v)) == 1]
    tgs = [r.sample(sp, r.randrange(1, len(sp) + 1)) for _ in range(r.randrange(1, 4))]
    for _ in range(r.randrange(1, 7)):
        tg = r.choice(tgs)
        hub = g.add_vertex(VertexType.Z, -1, 5, phase=1 if r.random() < .3 else 0)
        leaf = g.add_vertex(VertexType.Z, -2, 5, phase=gen.phase(r, r.choice(['cliffordT', 'wild'])) % 2)
        g.add_edge((hub, leaf), EdgeType.HADAMARD)
        for t in tg:
            g.add_edge((hub, t), EdgeType.HADAMARD)
    m = ref.matrix(g)
    apply_one(case, g, r.choice(['gadgets', 'gadgets', 'pivot_gadget', 'supplementarity']), m)


def phasepoly_diagram(r):
    import itertools
    nq = r.randrange(4, 6)
    g = Graph()
    vs, ins, outs = [], [], []
    for i in range(nq):
        a = g.add_vertex(VertexType.BOUNDARY, i, 0)
        v = g.add_vertex(VertexType.Z, i, 1, phase=Fraction(r.choice([1, 3, 5, 7]), 4) if r.random() < .9 else 0)
        b = g.add_vertex(VertexType.BOUNDARY, i, 2)
        g.add_edge((a, v))
        g.add_edge((v, b))
        vs.append(v); ins.append(a); outs.append(b)
    for k in (2, 3, 4):
        for c in itertools.combinations(vs, k):
            if r.random() < .8:
                hub = g.add_vertex(VertexType.Z, -1, 1, phase=1 if r.random() < .15 else Fraction(r.choice([1, 2, 3, 5]), 4) if r.random() < .04 else 0)
                leaf = g.add_vertex(VertexType.Z, -2, 1, phase=Fraction(r.choice([1, 3, 5, 7]), 4))
                g.add_edge((hub, leaf), EdgeType.HADAMARD)
                for t in c:
                    g.add_edge((hub, t), EdgeType.HADAMARD)
    g.set_inputs(tuple(ins)); g.set_outputs(tuple(outs))
    return g


def k_phasepoly(case):
    """The 4-qubit phase-polynomial rule on diagrams that hold many gadgets on common targets; it only promises
    the map up to a global scalar."""
    g = phasepoly_diagram(case.rng)
    m0 = ref.matrix(g)
    ms = R.match_gadgets_phasepoly(g)
    if not ms:
        case.see("no_match:phasepoly")
        return
    sig = gen.show(g)
    R.apply_gadget_phasepoly(g, ms)
    mon.preserved(case, 'phasepoly', m0, g, exact=False)
    case.see("applied:phasepoly")
    case.note(sig, 'phasepoly')


KINDS = {'zx': (k_zx, 6000, 40000), 'gl': (k_gl, 6000, 40000), 'sparse': (k_sparse, 5000, 30000), 'chain': (k_chain, 4000, 25000), 'boxes': (k_boxes, 4000, 25000),
         'wchain': (k_wchain, 1500, 10000), 'unspider': (k_unspider, 2500, 15000), 'supp': (k_supp, 2500, 15000), 'copy': (k_copy, 2500, 15000),
         'bialg': (k_bialg, 1500, 10000), 'gadgets': (k_gadgets, 2500, 15000), 'phasepoly': (k_phasepoly, 300, 1500)}
KINDS = {k: (f, 3 * q, 3 * t) for k, (f, q, t) in KINDS.items()}
