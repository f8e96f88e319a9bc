"""Probing maps on many wires with random product vectors, where whole matrices would be too large.
Two different maps give different values on random vectors with probability 1."""
import cmath
import numpy as np
from . import ref, gref


def vec(r):
    a = r.uniform(.5, 1.2)
    b = cmath.rect(r.uniform(.5, 1.2), r.uniform(0, 6.28318))
    return np.array([a, b])


def vecs(r, n):
    return [vec(r) for _ in range(n)]


def product(ins):
    t = np.ones(())
    for v in ins:
        t = np.multiply.outer(t, v)
    return np.asarray(t, dtype=complex)


def state(gates, ins):
    """The tensor with one axis per qubit that the gates make of the product state."""
    t = product(ins)
    for g in gates:
        m, qs = gref.gate_matrix(g)
        t = gref.apply(t, m, qs)
    return t


def close_axes(t, outs):
    """Contract axis i with outs[i]; None leaves it open."""
    for i in reversed(range(len(outs))):
        if outs[i] is not None:
            t = np.tensordot(t, outs[i], axes=(i, 0))
    return t


def probe(g, ins, outs, scalar=True, subs=None):
    """The tensor of the diagram with a vector on every input and output whose entry is not None;
    open axes in the order outputs, inputs."""
    net = ref.Net()
    b = ref.build(g, net, subs=subs)
    op = []
    for vs, xs in ((g.outputs(), outs), (g.inputs(), ins)):
        assert len(vs) == len(xs)
        for v, x in zip(vs, xs):
            if x is None:
                op.append(b[v])
            else:
                net.factor((b[v],), x)
    t = net.contract(op)
    return t * complex(g.scalar.to_number()) if scalar else t


def keep(r, n, k=3):
    """Vectors for n wires with up to k of them left open."""
    o = set(r.sample(range(n), min(n, k)))
    return [None if i in o else vec(r) for i in range(n)]
