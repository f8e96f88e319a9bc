"""P15: diagrams as a data structure."""
from collections import Counter
from fractions import Fraction
import copy
import numpy as np
from .. import ref
from ..run import Skip
from ..model import Model, differ, pair, show, S, HAD, WIO, Z, X, B, H, ZB, WI, WO
from pyzx.graph import Graph
from pyzx.utils import EdgeType, VertexType, set_z_box_label, get_z_box_label, toggle_edge, vertex_is_w

RULE = "random sequences of diagram operations on a pool of diagrams of both backends, each compared with a plain model after every operation; non-trivial when at least 12 operations changed something; distinct by the operation log"
ASSUMPTIONS = ["vertices named in an operation exist", "coordinates are at least 0", "scalars are nonzero numbers"]
OPS = ['add_vertex', 'add_vertices', 'add_vertex_indexed', 'index_taken', 'add_edge', 'add_edges', 'add_edge_table', 'parallel', 'loop', 'refused', 'remove_vertex', 'remove_vertices', 'remove_edge', 'remove_edges', 'set_edge_type', 'set_type', 'set_phase', 'add_to_phase',
       'position', 'ground', 'vdata', 'io', 'clone', 'copy', 'deepcopy', 'copy_backend', 'adjoint', 'merge', 'merge_self', 'tensor', 'subgraph', 'translate', 'pack_rows', 'auto', 'isolated', 'wellformed', 'nonwellformed', 'stats', 'range']
NEED = [b + ":" + o for b in ('simple', 'multi', 'multiauto') for o in OPS if not (b == 'simple' and o == 'auto')] + ["big_histories"] + ["resolve:%s%s%s" % (b, a, c) for b in ('simple', 'multiauto') for a in 'ZXB' for c in 'ZXB']
ZXL = (Z, X, ZB)
ORD = {Z: 'Z', X: 'X', ZB: 'B'}


def label(m, v):
    d = m.v[v]
    if d['ty'] == ZB:
        return complex(d['data'].get('label', 1))
    return ref.ephase(d['phase'])


def local(types, labels, edges):
    """Map between one leg on each of two spiders joined by the edges, as a 2x2 matrix (for a==b: a vector)."""
    h = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    res = np.zeros((2, 2), dtype=complex)
    loops = len(types) == 1
    sig = lambda t, i: np.eye(2)[i] if t != X else h[i]
    # spider = sum_i label^i |b_i>..<b_i|
    for i in range(2):
        for j in range(2):
            if loops and i != j:
                continue
            w = labels[0] ** i * (1 if loops else labels[1] ** j)
            u, x = sig(types[0], i), sig(types[-1], j)
            for t, n in edges.items():
                m = np.eye(2) if t == S else h
                w = w * (u @ m @ x) ** n
            res[i, j] = w
    return res


class Pool:
    def __init__(self, case):
        self.case, self.r = case, case.rng
        self.items = []   # [graph, model, kind]
        self.log = []
        self.tag = 0
        self.changes = 0

    def new(self, kind):
        g = Graph('simple' if kind == 'simple' else 'multigraph')
        m = Model()
        m.multi = kind != 'simple'
        m.auto = kind != 'multi'
        if m.multi:
            g.set_auto_simplify(m.auto)
        g.scalar.add_power(3)
        m.scalar = 2 ** 1.5
        self.items.append([g, m, kind])

    def check(self, what):
        for k, (g, m, kind) in enumerate(self.items):
            d = differ(g, m)
            if d is not None:
                self.case.fail(what.split('(')[0], "%s diagram #%d after %s: %s; history: %s" % (kind, k, what, d, "; ".join(self.log[-12:])))
        self.changes += 1

    def label_all(self, g, m):
        """Give every vertex a tag of its own, by which it is recognised in copies."""
        for v in m.v:
            self.tag += 1
            g.set_vdata(v, 'tag', self.tag)
            m.v[v]['data']['tag'] = self.tag


def dflt(ty=B):
    return dict(ty=ty, phase=0, q=-1, row=-1, ground=False, data={})


def rphase(r):
    return r.choice([0, 1, Fraction(1, 2), Fraction(3, 2), Fraction(1, 4), Fraction(-1, 3), Fraction(7, 2), 5, Fraction(5, 4)])


def add_vertex(p, g, m):
    r = p.r
    ty = r.choice([Z, Z, Z, X, X, B, H, ZB, WI, WO])
    kw = {}
    d = dflt(ty)
    if r.random() < .5:
        d['phase'] = rphase(r)
        kw['phase'] = d['phase']
        d['phase'] %= 2
    elif ty == H:
        d['phase'] = 1
    if r.random() < .7:
        kw['qubit'] = d['q'] = r.choice([0, 1, 2, .5, 3])
        kw['row'] = d['row'] = r.choice([0, 1, 2, 3.5, 7])
    if r.random() < .15:
        kw['ground'] = d['ground'] = True
    v = g.add_vertex(ty, **kw)
    p.case.check(v not in m.v, "add_vertex", "a vertex in use was returned")
    m.v[v] = d
    if ty == ZB and r.random() < .7:
        l = r.choice([2, -1, 1j, .5 - 1j, 3])
        set_z_box_label(g, v, l)
        d['data']['label'] = l
    return "add_vertex(%s,%s)->%d" % (ty, kw, v)


def add_vertices(p, g, m):
    k = p.r.randrange(0, 4)
    vs = list(g.add_vertices(k))
    p.case.check(len(set(vs)) == k and not set(vs) & set(m.v), "add_vertices", lambda: "add_vertices(%d) returns %s next to %s" % (k, vs, sorted(m.v)))
    if k:
        p.case.check(vs == list(range(g.vindex() - k, g.vindex())), "add_vertices", lambda: "add_vertices(%d) returns %s with vindex %d" % (k, vs, g.vindex()))
    for v in vs:
        m.v[v] = dflt()
    return "add_vertices(%d)" % k


def add_indexed(p, g, m):
    if m.v and p.r.random() < .3:
        v = p.r.choice(sorted(m.v))
        try:
            g.add_vertex_indexed(v)
        except ValueError:
            p.case.see(p.kind + ":index_taken")
            return "add_vertex_indexed(%d): taken" % v
        p.case.fail("add_vertex_indexed:taken", "vertex %d exists already" % v)
    v = p.r.choice([u for u in range(max(20, len(m.v) + 9)) if u not in m.v])
    g.add_vertex_indexed(v)
    m.v[v] = dflt()
    return "add_vertex_indexed(%d)" % v


def two(p, m):
    vs = sorted(m.v)
    if not vs:
        raise Nothing
    a = p.r.choice(vs)
    if len(m.e) and p.r.random() < .3:
        a, b, _ = p.r.choice(sorted(m.e))
        return (a, b) if p.r.random() < .5 else (b, a)
    return a, p.r.choice(vs)


class Nothing(Exception):
    pass


def allowed(m, a, b, t):
    """Is adding this edge within the calculus (and the backend's documented limits)?"""
    bt = m.between(a, b)
    zx = m.v[a]['ty'] in ZXL and m.v[b]['ty'] in ZXL
    if t == WIO:
        return a != b and not bt and {m.v[a]['ty'], m.v[b]['ty']} == {WI, WO}
    if WIO in bt:
        return False
    if not m.multi:
        return zx or (a != b and not bt)
    return True


def one_edge(p, g, m, a, b, t, call):
    """Perform an addition of one edge and account for its resolution."""
    bt = m.between(a, b)
    zx = m.v[a]['ty'] in ZXL and m.v[b]['ty'] in ZXL
    call()
    key = pair(a, b) + (t,)
    if not ((m.multi and not m.auto) or not zx or (a != b and not bt and t != WIO)):
        resolve(p, g, m, a, b, {t: 1})
    else:
        m.e[key] += 1


def resolve(p, g, m, a, b, add):
    before = m.between(a, b)
    raw = Counter(before) + Counter(add)
    vs = [a] if a == b else [a, b]
    types = [m.v[v]['ty'] for v in vs]
    want = local(types, [label(m, v) for v in vs], raw) * m.scalar
    after = Counter(g.edge_type(e) for e in g.edges(a, b)) if g.connected(a, b) else Counter()
    # take over phases, labels and the scalar as they are now, then compare the meaning
    for v in vs:
        m.v[v]['phase'] = g.phase(v)
        if 'label' in g.vdata_keys(v):
            m.v[v]['data']['label'] = g.vdata(v, 'label')
    for t in (S, HAD, WIO):
        m.e[pair(a, b) + (t,)] = after[t]
    m.clean()
    m.scalar = g.scalar.to_number()
    got = local(types, [label(m, v) for v in vs], after) * m.scalar
    what = "resolve:%s" % p.kind
    p.case.check(ref.close(want, got), what, lambda: "edges %s added to %s between %d %s and %d %s: left with %s, the diagram changes: %s" % (dict(add), before, a, types[0], b, types[-1], dict(after), ref.describe(want, got)))
    if a == b:
        p.case.check(not after, what + ":loop", lambda: "a self-loop %s stays on vertex %d" % (dict(after), a))
        p.case.see(p.kind + ":loop")
    else:
        p.case.check(max(after.values(), default=0) <= 1 and (m.multi or sum(after.values()) <= 1), what + ":parallel", lambda: "edges %s stay between %d and %d" % (dict(after), a, b))
        p.case.see(p.kind + ":parallel")
        p.case.see("resolve:" + ('simple' if not m.multi else 'multiauto') + ORD[types[0]] + ORD[types[1]])


def add_edge(p, g, m):
    a, b = two(p, m)
    t = p.r.choice([S, S, HAD, HAD, WIO])
    if t == WIO and not ({m.v[a]['ty'], m.v[b]['ty']} == {WI, WO}):
        t = S
    if not allowed(m, a, b, t):
        # not representable: refused, and then nothing has happened
        if t == WIO or WIO in m.between(a, b) or not m.multi:
            try:
                g.add_edge((a, b), t)
            except ValueError:
                p.case.see(p.kind + ":refused")
                return "add_edge(%d,%d,%s): refused" % (a, b, t)
            p.case.fail("add_edge:refuse", "an edge %s between %d %s and %d %s next to %s was accepted" % (t, a, m.v[a]['ty'], b, m.v[b]['ty'], m.between(a, b)))
        raise Nothing
    known = m.between(a, b)

    def call():
        e = g.add_edge((a, b), t) if t != S or p.r.random() < .5 else g.add_edge((a, b))
        p.case.check(pair(*g.edge_st(e)) == pair(a, b), "add_edge:returned", lambda: "add_edge((%d,%d)) returns %s" % (a, b, e))
        if not known and a != b:
            p.case.check(g.edge_type(e) == t, "add_edge:returned", lambda: "the returned edge %s has type %s" % (e, g.edge_type(e)))
    if m.multi and not m.auto and a == b:
        p.case.see(p.kind + ":loop")
    if m.multi and not m.auto and known:
        p.case.see(p.kind + ":parallel")
    one_edge(p, g, m, a, b, t, call)
    return "add_edge(%d,%d,%s)" % (a, b, t)


def fresh_pairs(p, m, k):
    vs = sorted(m.v)
    if len(vs) < 2:
        raise Nothing
    res = []
    for _ in range(k):
        a, b = p.r.sample(vs, 2)
        if not m.between(a, b) and pair(a, b) not in [pair(*x) for x in res]:
            res.append((a, b))
    return res


def add_edges(p, g, m):
    ps = fresh_pairs(p, m, p.r.randrange(0, 4))
    t = p.r.choice([S, HAD])
    arg = iter(ps) if p.r.random() < .3 else ps
    if t == S and p.r.random() < .5:
        g.add_edges(arg)
    else:
        g.add_edges(arg, edgetype=t)
    for a, b in ps:
        m.e[pair(a, b) + (t,)] += 1
    return "add_edges(%s,%s)" % (ps, t)


def add_edge_table(p, g, m):
    """Several edges between spiders at once, resolved by the spider and Hopf laws."""
    vs = [v for v in sorted(m.v) if m.v[v]['ty'] in ZXL]
    if len(vs) < 2:
        raise Nothing
    a, b = p.r.sample(vs, 2)
    ns, nh = p.r.randrange(3), p.r.randrange(3)
    g.add_edge_table({(a, b): [ns, nh]})
    if m.multi and not m.auto:
        m.e[pair(a, b) + (S,)] += ns
        m.e[pair(a, b) + (HAD,)] += nh
        m.clean()
    elif ns + nh:
        resolve(p, g, m, a, b, {S: ns, HAD: nh})
    return "add_edge_table(%d,%d,%d,%d)" % (a, b, ns, nh)


def remove_vertex(p, g, m):
    if not m.v:
        raise Nothing
    v = p.r.choice(sorted(m.v))
    g.remove_vertex(v)
    m.drop(v)
    return "remove_vertex(%d)" % v


def remove_vertices(p, g, m):
    vs = p.r.sample(sorted(m.v), min(len(m.v), p.r.randrange(0, 4)))
    g.remove_vertices(iter(vs) if p.r.random() < .3 else vs)
    for v in vs:
        m.drop(v)
    return "remove_vertices(%s)" % vs


def edge_of(g, a, b, t):
    for e in g.edges(a, b):
        if g.edge_type(e) == t:
            return e
    raise Nothing


def remove_edge(p, g, m):
    if not m.e:
        raise Nothing
    a, b, t = p.r.choice(sorted(m.e))
    g.remove_edge(edge_of(g, a, b, t))
    m.e[(a, b, t)] -= 1
    m.clean()
    return "remove_edge(%d,%d,%s)" % (a, b, t)


def remove_edges(p, g, m):
    es = list(g.edges())
    es = p.r.sample(es, min(len(es), p.r.randrange(0, 4)))
    for e in es:
        m.e[pair(*g.edge_st(e)) + (g.edge_type(e),)] -= 1
    g.remove_edges(es)
    m.clean()
    return "remove_edges(%s)" % es


def set_edge_type(p, g, m):
    if not m.e:
        raise Nothing
    a, b, t = p.r.choice(sorted(m.e))
    if t == WIO or (m.multi and m.auto and sum(m.between(a, b).values()) > 1):
        raise Nothing
    new = p.r.choice([S, HAD, toggle_edge(t)])
    g.set_edge_type(edge_of(g, a, b, t), new)
    m.e[(a, b, t)] -= 1
    m.e[(a, b, new)] += 1
    m.clean()
    return "set_edge_type(%d,%d,%s->%s)" % (a, b, t, new)


def pick(p, m):
    if not m.v:
        raise Nothing
    return p.r.choice(sorted(m.v))


def set_type(p, g, m):
    v = pick(p, m)
    t = p.r.choice([Z, X, H, B, ZB])
    if vertex_is_w(m.v[v]['ty']):
        raise Nothing
    g.set_type(v, t)
    m.v[v]['ty'] = t
    return "set_type(%d,%s)" % (v, t)


def set_phase(p, g, m):
    v = pick(p, m)
    x = rphase(p.r)
    g.set_phase(v, x)
    m.v[v]['phase'] = x % 2
    return "set_phase(%d,%s)" % (v, x)


def add_to_phase(p, g, m):
    v = pick(p, m)
    x = rphase(p.r)
    g.add_to_phase(v, x)
    m.v[v]['phase'] = (m.v[v]['phase'] + x) % 2
    return "add_to_phase(%d,%s)" % (v, x)


def position(p, g, m):
    v = pick(p, m)
    q, r = p.r.choice([0, 1, 2, 4.5]), p.r.choice([0, 1, 2, 6, 2.25])
    x = p.r.randrange(3)
    if x == 0:
        g.set_position(v, q, r)
        m.v[v].update(q=q, row=r)
    elif x == 1:
        g.set_qubit(v, q)
        m.v[v]['q'] = q
    else:
        g.set_row(v, r)
        m.v[v]['row'] = r
    return "position%d(%d,%s,%s)" % (x, v, q, r)


def ground(p, g, m):
    v = pick(p, m)
    f = p.r.random() < .5
    if f and p.r.random() < .5:
        g.set_ground(v)
    else:
        g.set_ground(v, f)
    m.v[v]['ground'] = f
    return "set_ground(%d,%s)" % (v, f)


def vdata(p, g, m):
    v = pick(p, m)
    k, x = p.r.choice(['a', 'b']), p.r.choice([1, 'x', (2, 3), None])
    g.set_vdata(v, k, x)
    m.v[v]['data'][k] = x
    return "set_vdata(%d,%s,%s)" % (v, k, x)


def io(p, g, m):
    bs = [v for v in m.v if m.v[v]['ty'] == B]
    p.r.shuffle(bs)
    k = p.r.randrange(len(bs) + 1)
    g.set_inputs(tuple(bs[:k]))
    g.set_outputs(tuple(bs[k:]))
    m.ins, m.outs = tuple(bs[:k]), tuple(bs[k:])
    return "set_inputs(%s), set_outputs(%s)" % (bs[:k], bs[k:])


def resolvable(m):
    """Would adding the edges again one by one resolve some of them?"""
    if m.multi and not m.auto:
        return False
    n = Counter()
    for (a, b, t), k in m.e.items():
        if m.v[a]['ty'] in ZXL and m.v[b]['ty'] in ZXL and (a == b or k > 1):
            return True
        n[(a, b)] += k
    return not m.multi and any(k > 1 for k in n.values())


def named(p, g, m, h):
    """Renaming of the vertices of m into those of h by tag."""
    t = {h.vdata(v, 'tag', None): v for v in h.vertices()}
    p.case.check(len(t) == len(m.v) == h.num_vertices(), "copy:vertices", lambda: "a copy of %d vertices has %d" % (len(m.v), h.num_vertices()))
    return {v: t.get(m.v[v]['data']['tag'], -1) for v in m.v}


def sameback(p, h, m, what):
    p.case.check(h.backend == ('multigraph' if m.multi else 'simple'), what + ":backend", lambda: "%s gives a diagram of backend %s" % (what, h.backend))


def do_clone(p, g, m):
    h = g.clone()
    sameback(p, h, m, "clone")
    p.items[p.other()] = [h, m.copy(), p.kind]
    return "clone()"


def do_deepcopy(p, g, m):
    h = copy.deepcopy(g)
    p.items[p.other()] = [h, m.copy(), p.kind]
    return "deepcopy()"


def do_copy(p, g, m):
    if resolvable(m):
        raise Nothing
    p.label_all(g, m)
    h = g.copy()
    sameback(p, h, m, "copy")
    p.case.check(sorted(h.vertices()) == list(range(len(m.v))), "copy:consecutive", "a copy has consecutive indices")
    p.items[p.other()] = [h, m.copy(named(p, g, m, h)), p.kind]
    return "copy()"


def do_copy_backend(p, g, m):
    if resolvable(m):
        raise Nothing
    back = p.r.choice(['simple', 'multigraph'])
    n = m.copy()
    n.multi, n.auto = back == 'multigraph', back == 'simple' or not m.multi or m.auto
    if resolvable(n) or not n.multi and any(k > 1 or a == b or sum(m.between(a, b).values()) > 1 for (a, b, _), k in m.e.items()):
        raise Nothing
    p.label_all(g, m)
    h = g.copy(backend=back)
    sameback(p, h, n, "copy(backend)")
    n = m.copy(named(p, g, m, h))
    n.multi, n.auto = back == 'multigraph', back == 'simple' or not m.multi or m.auto
    p.items[p.other()] = [h, n, 'simple' if not n.multi else 'multiauto' if n.auto else 'multi']
    return "copy(backend=%s)" % back


def do_adjoint(p, g, m):
    if resolvable(m):
        raise Nothing
    p.label_all(g, m)
    h = g.adjoint() if p.r.random() < .5 else g.copy(adjoint=True)
    sameback(p, h, m, "adjoint")
    n = m.copy(named(p, g, m, h))
    n.ins, n.outs = n.outs, n.ins
    top = max((d['row'] for d in n.v.values() if d['row'] != -1), default=-1)
    old = g.rows()
    inv = {b: a for a, b in named(p, g, m, h).items()}
    for v, d in n.v.items():
        d['phase'] = -d['phase'] % 2
        if d['row'] != -1 or inv[v] in old:
            d['row'] = top - d['row']
        if 'label' in d['data']:
            d['data']['label'] = np.conjugate(d['data']['label'])
        elif d['ty'] == ZB:
            d['data']['label'] = h.vdata(v, 'label', 1)   # stored explicitly now
            p.case.check(d['data']['label'] == 1, "adjoint:label", "a default label became %s" % d['data']['label'])
            if 'label' not in h.vdata_keys(v):
                del d['data']['label']
    for v, d in n.v.items():
        if d['ty'] != ZB and 'label' in d['data']:
            d['data']['label'] = m.v[inv[v]]['data']['label']   # unused label of a vertex that is no Z-box any more
    n.scalar = complex(n.scalar).conjugate()
    p.items[p.other()] = [h, n, p.kind]
    return "adjoint()"


def do_merge(p, g, m):
    """Merge another diagram of the pool into this one."""
    k = p.other() if p.r.random() < .8 else next(i for i, it in enumerate(p.items) if it[0] is g)
    h, n, kind = p.items[k]
    if len(m.v) + len(n.v) > 16 or resolvable(n) or (n.multi and not n.auto and (not m.multi or m.auto)):
        raise Nothing
    if not m.multi and (n.multi and any(sum(n.between(a, b).values()) > 1 or a == b for a, b, _ in n.e)):
        raise Nothing
    order = list(h.vertices())
    if h is g:
        p.case.see(kind + ":merge_self")
    vs, es = g.merge(h)
    p.case.check(len(vs) == len(set(vs)) == len(n.v) and not set(vs) & set(m.v), "merge:vertices", lambda: "merge returns vertices %s" % vs)
    ren = dict(zip(order, vs))
    n2 = n.copy(ren)
    m.v.update(n2.v)
    m.e += n2.e
    m.scalar *= n2.scalar
    p.case.check(Counter(pair(*g.edge_st(e)) + (g.edge_type(e),) for e in es) == n2.e, "merge:edges", lambda: "merge returns edges %s, expected %s" % (es, show(n2.e)))
    return "merge(#%d)" % k


def do_tensor(p, g, m):
    k = p.other()
    h, n, kind = p.items[k]
    if len(m.v) + len(n.v) > 16 or resolvable(m) or resolvable(n) or kind != p.kind:
        raise Nothing
    p.label_all(g, m)
    p.label_all(h, n)
    for v in n.v:   # clones share tags
        p.tag += 1
        n.v[v]['data']['tag'] = p.tag
        h.set_vdata(v, 'tag', p.tag)
    res = g.tensor(h) if p.r.random() < .5 else g @ h
    sameback(p, res, m, "tensor")
    both = m.copy()
    shift = max(list(m.v), default=-1) + 1
    n2 = n.copy({v: v + shift for v in n.v})
    both.v.update(n2.v)
    both.e += n2.e
    both.scalar *= n2.scalar
    both.ins += n2.ins
    both.outs += n2.outs
    ren = named(p, None, both, res)
    height = max((m.v[v]['q'] for v in m.v if v in g.qubits()), default=0) + 1
    for v in n2.v:
        both.v[v]['q'] = n2.v[v]['q'] + height
    both = both.copy(ren)
    for vs, f in ((both.ins, min), (both.outs, max)):
        # inputs are aligned on the left, outputs on the right
        if vs:
            x = f(both.v[v]['row'] for v in vs)
            for v in vs:
                both.v[v]['row'] = x
    p.items[p.other()] = [res, both, p.kind]
    return "tensor(#%d)" % k


def do_subgraph(p, g, m):
    if resolvable(m):
        raise Nothing
    p.label_all(g, m)
    vs = p.r.sample(sorted(m.v), p.r.randrange(len(m.v) + 1))
    h = g.subgraph_from_vertices(vs)
    sameback(p, h, m, "subgraph")
    n = m.copy()
    for v in list(n.v):
        if v not in vs:
            n.drop(v)
    n.ins = n.outs = ()
    n.scalar = 1
    p.items[p.other()] = [h, n.copy(named(p, g, n, h)), p.kind]
    return "subgraph_from_vertices(%s)" % vs


def do_translate(p, g, m):
    if resolvable(m):
        raise Nothing
    p.label_all(g, m)
    x, y = p.r.choice([0, 1, 2.5]), p.r.choice([0, 1, 3])
    h = g.translate(x, y)
    n = m.copy(named(p, g, m, h))
    for d in n.v.values():
        d['row'] += x
        d['q'] += y
    p.items[p.other()] = [h, n, p.kind]
    return "translate(%s,%s)" % (x, y)


def pack(p, g, m):
    g.pack_circuit_rows()
    rows = sorted({d['row'] for d in m.v.values()})
    for d in m.v.values():
        d['row'] = rows.index(d['row'])
    return "pack_circuit_rows()"


def auto(p, g, m):
    """Switching automatic simplification changes nothing by itself."""
    if not m.multi:
        raise Nothing
    if not m.auto and any(m.v[a]['ty'] in ZXL and m.v[b]['ty'] in ZXL and (a == b or sum(m.between(a, b).values()) > 1) for a, b, _ in m.e):
        raise Nothing
    m.auto = not m.auto
    g.set_auto_simplify(m.auto)
    for it in p.items:
        if it[1] is m:
            it[2] = 'multiauto' if m.auto else 'multi'
    return "set_auto_simplify(%s)" % m.auto


def isolated(p, g, m):
    """Removing isolated vertices and pairs accounts for them in the scalar."""
    if any(d['ty'] in (WI, WO) or d['ground'] for d in m.v.values()) or any(a == b for a, b, _ in m.e):
        raise Nothing
    if any(m.v[v]['ty'] == B and not m.nbrs(v) for v in m.v):
        try:
            g.clone().remove_isolated_vertices()
        except TypeError:
            return "remove_isolated_vertices(): refused"
        p.case.fail("isolated:refuse", "a diagram with an isolated boundary was accepted")
    gone, factor = [], 1
    for v in sorted(m.v):
        nb = m.nbrs(v)
        if v in gone or m.v[v]['ty'] == B:
            continue
        if not nb:
            gone.append(v)
            factor *= ref.ephase(m.v[v]['phase']) if m.v[v]['ty'] == H else 1 + label(m, v)
        elif len(nb) == 1:
            w = next(iter(nb))
            if m.nbrs(w) != {v} or m.v[w]['ty'] == B:
                continue
            bt = m.between(v, w)
            if sum(bt.values()) > 1:
                raise Nothing
            gone += [v, w]
            tt = [Z if m.v[u]['ty'] == H else m.v[u]['ty'] for u in (v, w)]
            factor *= local(tt, [label(m, v), label(m, w)], bt).sum()
    if abs(factor) < 1e-9:
        raise Nothing
    g.remove_isolated_vertices()
    for v in gone:
        m.drop(v)
    m.scalar *= factor
    return "remove_isolated_vertices(): %s" % gone


def wellformed(p, g, m):
    deg = {v: sum(n * (2 if a == b else 1) for (a, b, t), n in m.e.items() if v in (a, b)) for v in m.v}
    want = all(deg[v] == 1 if d['ty'] == B else deg[v] == 2 if d['ty'] == WI else deg[v] >= 2 if d['ty'] == WO else True for v, d in m.v.items())
    p.case.check(bool(g.is_well_formed()) == want, "is_well_formed", lambda: "is_well_formed() is %s for degrees %s" % (g.is_well_formed(), deg))
    if not want:
        p.case.see(p.kind + ":nonwellformed")
        return None
    return "is_well_formed()"


def stats(p, g, m):
    deg = Counter(sum(n * (2 if a == b else 1) for (a, b, t), n in m.e.items() if v in (a, b)) for v in m.v)
    want = "Graph(%d vertices, %d edges)" % (len(m.v), sum(m.e.values()))
    p.case.check(str(g) == want and repr(g) == want, "str", lambda: "str is %s, expected %s" % (g, want))
    lines = g.stats().split("\n")
    got = {}
    for l in lines[2:]:
        if l.strip():
            a, b = l.split(":")
            got[int(a)] = int(b)
    p.case.check(lines[0] == want and got == dict(deg), "stats", lambda: "stats() is %r, degrees are %s" % (g.stats(), dict(deg)))
    return "stats()"


def in_range(p, g, m):
    a, b = sorted(p.r.sample(range(-1, 16), 2))
    inside = lambda v: a < v < b and all(a < u < b for u in m.nbrs(v))
    p.case.check(sorted(g.vertices_in_range(a, b)) == [v for v in sorted(m.v) if inside(v)], "vertices_in_range", lambda: "vertices_in_range(%d,%d) is %s" % (a, b, sorted(g.vertices_in_range(a, b))))
    return "vertices_in_range(%d,%d)" % (a, b)


ACTS = [(add_vertex, 14), (add_vertices, 2), (add_indexed, 3), (add_edge, 30), (add_edges, 4), (add_edge_table, 4), (remove_vertex, 3), (remove_vertices, 2), (remove_edge, 4), (remove_edges, 2), (set_edge_type, 5),
        (set_type, 5), (set_phase, 4), (add_to_phase, 4), (position, 5), (ground, 2), (vdata, 4), (io, 3), (do_clone, 2), (do_copy, 2), (do_deepcopy, 1), (do_copy_backend, 2), (do_adjoint, 2), (do_merge, 2), (do_tensor, 2), (do_subgraph, 2),
        (do_translate, 1), (pack, 1), (auto, 1), (isolated, 2), (wellformed, 1), (stats, 1), (in_range, 1)]
NAME = {add_vertex: 'add_vertex', add_vertices: 'add_vertices', add_indexed: 'add_vertex_indexed', add_edge: 'add_edge', do_clone: 'clone', do_copy: 'copy', do_deepcopy: 'deepcopy', do_copy_backend: 'copy_backend', do_adjoint: 'adjoint', do_merge: 'merge',
        do_tensor: 'tensor', do_subgraph: 'subgraph', do_translate: 'translate', pack: 'pack_rows', in_range: 'range'}


def k_history(case):
    r = case.rng
    p = Pool(case)
    kinds = ['simple', 'multi', 'multiauto']
    for _ in range(3):
        p.new(r.choice(kinds))
    acts = [f for f, w in ACTS for _ in range(w)]
    # start from something
    big = r.random() < .04
    if big:
        case.see("big_histories")
    for it in p.items[:r.randrange(1, 4)]:
        p.kind = it[2]
        for _ in range(r.randrange(12, 40) if big else r.randrange(2, 8)):
            p.log.append(add_vertex(p, it[0], it[1]))
    steps = r.choice([10, 25, 60])
    for _ in range(steps):
        i = r.randrange(3)
        p.other = lambda: r.choice([k for k in range(3) if k != i])
        g, m, kind = p.items[i]
        p.kind = kind
        f = r.choice(acts)
        if f is add_vertex and len(m.v) > (60 if big else 9):
            continue
        try:
            what = f(p, g, m)
        except Nothing:
            continue
        if what is None:
            continue
        p.log.append("#%d.%s" % (i, what))
        p.check(what)
        case.see(kind + ":" + NAME.get(f, f.__name__))
    case.see("steps", p.changes)
    if p.changes >= 12:
        case.note(*p.log)
    case.sample("; ".join(p.log[-20:]))


KINDS = {'history': (k_history, 6500, 80000)}
