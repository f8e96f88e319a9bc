"""Monitors shared by several checks."""
from . import ref


def structure(g):
    """Structural invariants of a diagram object, through the public accessors only.
    Returns None or a description of the first inconsistency."""
    vs = list(g.vertices())
    vset = set(vs)
    if len(vset) != len(vs):
        return "vertices() repeats a vertex"
    if g.num_vertices() != len(vs):
        return "num_vertices()=%s but vertices() has %d" % (g.num_vertices(), len(vs))
    es = list(g.edges())
    if g.num_edges() != len(es):
        return "num_edges()=%s but edges() has %d" % (g.num_edges(), len(es))
    nb = {v: set() for v in vs}
    dg = {v: 0 for v in vs}
    for e in es:
        s, t = g.edge_st(e)
        if s not in vset or t not in vset:
            return "edge %s has an endpoint that is not a vertex" % (e,)
        nb[s].add(t)
        nb[t].add(s)
        dg[s] += 1
        dg[t] += 1
        if int(g.edge_type(e)) not in (1, 2, 3):
            return "edge %s has type %s" % (e, g.edge_type(e))
    for v in vs:
        got = set(g.neighbors(v))
        if got != nb[v]:
            return "neighbors(%s)=%s, edges say %s" % (v, sorted(got), sorted(nb[v]))
        if g.vertex_degree(v) != dg[v] and v not in nb[v]:
            return "vertex_degree(%s)=%s, edges say %s" % (v, g.vertex_degree(v), dg[v])
    for name, l in (('inputs', g.inputs()), ('outputs', g.outputs())):
        for v in l:
            if v not in vset:
                return "%s contains %s which is not a vertex" % (name, v)
    return None


def preserved(case, what, before, g, exact=True, atol=1e-11):
    """The diagram's linear map equals the matrix recorded before. Records the observation."""
    s = structure(g)
    if s is not None:
        case.fail("structure:" + what, "after %s the diagram object is inconsistent: %s" % (what, s))
    after = ref.matrix(g) if getattr(case, 'view', None) is None else case.view(g)
    case.see("maps_compared")
    if exact:
        ok = ref.close(before, after, 1e-7 if atol < 1e-9 else 1e-6, atol)
    else:
        ok = ref.close_up_to_scalar(before, after)[0]
    if not ok:
        kind = "shape" if before.shape != after.shape else ("scalar" if ref.close_up_to_scalar(before, after)[0] else "map")
        case.fail("%s:%s" % (kind, what), "%s changed the linear map: %s" % (what, ref.describe(before, after)))
    return after


def snapshot(g):
    """Deep observable state of a diagram (through public accessors)."""
    vs = sorted(g.vertices())
    d = {}
    for v in vs:
        d[v] = (int(g.type(v)), g.phase(v), g.row(v), g.qubit(v), v in g.grounds(),
                tuple(sorted((k, repr(g.vdata(v, k))) for k in g.vdata_keys(v))) if hasattr(g, 'vdata_keys') else ())
    es = sorted((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.edges())
    sc = g.scalar
    return (d, es, tuple(g.inputs()), tuple(g.outputs()),
            (sc.power2, sc.phase, complex(sc.floatfactor), sc.is_zero, tuple(sc.phasenodes)))


def circ_snapshot(c):
    return (c.qubits, c.bits, c.name, tuple(gate_key(x) for x in c.gates))


def gate_key(x):
    d = {k: v for k, v in sorted(vars(x).items())}
    return (type(x).__name__, tuple((k, repr(v)) for k, v in d.items()))
