"""Independent reference semantics ("the oracle").

Nothing here calls pyzx.tensor / pyzx.quimb / Circuit.to_tensor: a diagram is read
through the public graph accessors and evaluated by *variable elimination* (every
spider is a Boolean variable), which shares no code and no algorithm with the
row-by-row tensor contraction of the implementation.
"""
import cmath, math
import numpy as np

Z, X, H_BOX, W_IN, W_OUT, Z_BOX, BOUNDARY = 1, 2, 3, 4, 5, 6, 0
SIMPLE, HADAMARD, W_IO = 1, 2, 3
HADM = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
MAX_RANK = 22


class TooBig(Exception):
    pass


class BadDiagram(Exception):
    """The diagram is not a well-formed ZX diagram (raised by the oracle)."""
    pass


def ephase(p):
    """exp(i*pi*p), exact on multiples of 1/2."""
    from fractions import Fraction
    if isinstance(p, (int, Fraction)):
        p = Fraction(p) % 2
        q = p * 2
        if q.denominator == 1:
            return (1, 1j, -1, -1j)[int(q)]
    return cmath.exp(1j * math.pi * float(p))


class Net:
    """A factor network over Boolean variables with union-find merging."""

    def __init__(self):
        self.parent = []
        self.factors = []  # (vars, array)
        self.const = 1.0 + 0j

    def var(self):
        self.parent.append(len(self.parent))
        return len(self.parent) - 1

    def find(self, a):
        p = self.parent
        while p[a] != a:
            p[a] = p[p[a]]
            a = p[a]
        return a

    def merge(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.parent[max(a, b)] = min(a, b)

    def factor(self, vs, arr):
        self.factors.append((tuple(vs), np.asarray(arr, dtype=complex)))

    @staticmethod
    def _dedup(vs, arr):
        """Take diagonals for repeated variables."""
        u = []
        for v in vs:
            if v not in u:
                u.append(v)
        if len(u) != len(vs):
            loc = {v: i for i, v in enumerate(u)}
            arr = np.einsum(arr, [loc[v] for v in vs], list(range(len(u))))
        return tuple(u), arr

    @staticmethod
    def _mul(f, g):
        vs = list(f[0]) + [v for v in g[0] if v not in f[0]]
        if len(vs) > MAX_RANK:
            raise TooBig(len(vs))
        loc = {v: i for i, v in enumerate(vs)}
        a = np.einsum(f[1], [loc[v] for v in f[0]], g[1], [loc[v] for v in g[0]], list(range(len(vs))))
        return tuple(vs), a

    def contract(self, open_vars):
        """Full tensor with one axis per entry of open_vars (repeats allowed)."""
        opn = [self.find(v) for v in open_vars]
        oset = set(opn)
        allv = {self.find(v) for v in range(len(self.parent))}
        facs = []
        for vs, a in self.factors:
            facs.append(self._dedup([self.find(v) for v in vs], a))
        byvar = {v: set() for v in allv}
        fs = dict(enumerate(facs))
        nxt = len(fs)
        for i, (vs, _) in fs.items():
            for v in vs:
                byvar[v].add(i)
        const = self.const
        todo = set(v for v in allv if v not in oset)
        # min-size elimination
        while todo:
            best = None
            for v in todo:
                s = set()
                for i in byvar[v]:
                    s.update(fs[i][0])
                k = len(s)
                if best is None or k < best[0]:
                    best = (k, v)
                    if k <= 2:
                        break
            v = best[1]
            todo.discard(v)
            ids = sorted(byvar[v], key=lambda i: len(fs[i][0]))
            if not ids:
                const *= 2
                continue
            f = fs[ids[0]]
            for i in ids[1:]:
                f = self._mul(f, fs[i])
            for i in ids:
                for w in fs[i][0]:
                    byvar[w].discard(i)
                del fs[i]
            ax = f[0].index(v)
            f = (f[0][:ax] + f[0][ax + 1:], f[1].sum(axis=ax))
            if not f[0]:
                const *= complex(f[1])
                continue
            fs[nxt] = f
            for w in f[0]:
                byvar[w].add(nxt)
            nxt += 1
        uniq = []
        for v in opn:
            if v not in uniq:
                uniq.append(v)
        if len(uniq) > MAX_RANK or len(open_vars) > MAX_RANK:
            raise TooBig(len(open_vars))
        res = np.full((2,) * len(uniq), const, dtype=complex)
        if not uniq:
            res = np.array(const, dtype=complex)
        cur = (tuple(uniq), res)
        for f in fs.values():
            if not f[0]:
                cur = (cur[0], cur[1] * complex(f[1]))
            else:
                cur = self._mul(cur, f)
        t = cur[1]
        if len(uniq) == len(opn):
            return t
        out = np.zeros((2,) * len(opn), dtype=complex)
        loc = {v: i for i, v in enumerate(uniq)}
        for idx in np.ndindex(*t.shape):
            out[tuple(idx[loc[v]] for v in opn)] = t[idx]
        return out


def _edges(g):
    """List of (s,t,type) counting parallel edges once each."""
    res = []
    for e in list(g.edges()):
        s, t = g.edge_st(e)
        res.append((s, t, int(g.edge_type(e))))
    return res


def build(g, net, conj=False, share=None, subs=None):
    """Add the diagram g to net. Returns {boundary vertex: var}.
    ``share`` (dict ground vertex -> var) makes doubled diagrams share the ground variables."""
    halves = {}
    edges = _edges(g)
    verts = list(g.vertices())
    vset = set(verts)
    vvar = {}
    bvar = {}
    grounds = set(g.grounds())
    ty = {v: int(g.type(v)) for v in verts}
    deg = {v: 0 for v in verts}
    for s, t, et in edges:
        if s not in vset or t not in vset:
            raise BadDiagram("dangling edge %s" % ((s, t),))
        if et not in (SIMPLE, HADAMARD, W_IO):
            raise BadDiagram("edge %s has type %s" % ((s, t), et))
        deg[s] += 1
        deg[t] += 1
    for v in verts:
        t = ty[v]
        ph = g.phase(v)
        if subs is not None and hasattr(ph, 'substitute'):
            ph = subs(ph)
        if t == BOUNDARY:
            if deg[v] != 1:
                raise BadDiagram("boundary %s has degree %d" % (v, deg[v]))
            vvar[v] = bvar[v] = net.var()
        elif t in (Z, X):
            vvar[v] = x = net.var()
            w = ephase(ph)
            net.factor((x,), [1, w.conjugate() if conj else w])
        elif t == Z_BOX:
            vvar[v] = x = net.var()
            w = complex(g.vdata(v, 'label', 1))
            net.factor((x,), [1, w.conjugate() if conj else w])
        elif t in (H_BOX, W_IN, W_OUT):
            halves[v] = []
        else:
            raise BadDiagram("vertex type %s" % t)
        if v in grounds and share is not None and t in (Z, X):
            if v in share:
                net.merge(vvar[v], share[v])
            else:
                share[v] = vvar[v]

    def end(v):
        if v in vvar:
            return vvar[v]
        x = net.var()
        halves[v].append(x)
        return x

    for s, t, et in edges:
        a, b = end(s), end(t)
        h = (et == HADAMARD) ^ (ty[s] == X) ^ (ty[t] == X)
        if h:
            net.factor((a, b), HADM)
        else:
            net.merge(a, b)
    for v, hs in halves.items():
        k = len(hs)
        if k > 16:
            raise TooBig(k)
        if ty[v] == H_BOX:
            w = ephase(g.phase(v) if subs is None else (subs(g.phase(v)) if hasattr(g.phase(v), 'substitute') else g.phase(v)))
            if conj:
                w = w.conjugate()
            a = np.ones((2,) * k, dtype=complex)
            if k == 0:
                net.const *= w
                continue
            a[(1,) * k] = w
            net.factor(hs, a)
        else:
            a = np.zeros((2,) * k, dtype=complex)
            for i in range(k):
                idx = [0] * k
                idx[i] = 1
                a[tuple(idx)] = 1
            if k == 0:
                net.const *= 0
            else:
                net.factor(hs, a)
    # boundary vertices occurring as both input and output, or missing, are malformed
    io = list(g.inputs()) + list(g.outputs())
    if len(set(io)) != len(io):
        raise BadDiagram("input/output list has repeated vertices %s" % io)
    if set(io) != set(bvar):
        raise BadDiagram("inputs+outputs %s differ from the boundary vertices %s" % (sorted(io), sorted(bvar)))
    return bvar


def tensor(g, scalar=True, subs=None):
    """ndarray with axes outputs..., inputs... (no grounds)."""
    net = Net()
    b = build(g, net, subs=subs)
    t = net.contract([b[v] for v in g.outputs()] + [b[v] for v in g.inputs()])
    if scalar:
        t = t * complex(g.scalar.to_number())
    return t


def matrix(g, scalar=True, subs=None):
    return tensor(g, scalar, subs=subs).reshape(2 ** len(g.outputs()), 2 ** len(g.inputs()))


def channel(g, scalar=True):
    """Doubled (CPM) tensor of a diagram that may contain grounds: axes
    outputs, inputs, outputs', inputs'."""
    net = Net()
    share = {}
    b = build(g, net, share=share)
    b2 = build(g, net, conj=True, share=share)
    io = list(g.outputs()) + list(g.inputs())
    t = net.contract([b[v] for v in io] + [b2[v] for v in io])
    if scalar:
        t = t * abs(complex(g.scalar.to_number())) ** 2
    return t


# ------------------------------------------------------------- comparison
def close(a, b, tol=1e-7, atol=1e-11):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    m = max(np.abs(a).max(initial=0), np.abs(b).max(initial=0))
    if not np.isfinite(m):
        return False
    return bool(np.abs(a - b).max(initial=0) <= tol * max(m, 1e-12) + atol)


def close_up_to_scalar(a, b, tol=1e-6):
    """a == c*b for some nonzero c (both zero counts as equal). Returns (bool, c)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False, None
    ma, mb = np.abs(a).max(initial=0), np.abs(b).max(initial=0)
    if not (np.isfinite(ma) and np.isfinite(mb)):
        return False, None
    if ma < 1e-10 or mb < 1e-10:
        return (ma < 1e-10 and mb < 1e-10), 0
    i = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    c = a[i] / b[i]
    if abs(c) < 1e-10:
        return False, c
    return bool(np.abs(a - c * b).max() <= tol * ma), c


def close_up_to_phase(a, b, tol=1e-6):
    ok, c = close_up_to_scalar(a, b, tol)
    if not ok:
        return False
    if c == 0:
        return True
    return abs(abs(c) - 1) < 1e-6


def describe(a, b):
    ok, c = close_up_to_scalar(a, b)
    if np.asarray(a).shape != np.asarray(b).shape:
        return "shapes differ: %s vs %s" % (np.asarray(a).shape, np.asarray(b).shape)
    if ok:
        return "equal only up to the scalar %s" % (c,)
    return "different linear maps (max abs diff %.3g)" % np.abs(np.asarray(a) - np.asarray(b)).max()
