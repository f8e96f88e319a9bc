"""P21: symbolic phases."""
import json
from fractions import Fraction
import numpy as np
from .. import gen, ref
from ..run import Skip
import pyzx as zx
from pyzx import simplify, basicrules, rules
from pyzx.circuit import Circuit
from pyzx import rules as R, editor_actions as EA
from pyzx.circuit import gates as G
from .p02 import PAR, phasepoly_diagram
from pyzx.graph import Graph
from pyzx.graph.scalar import Scalar
from pyzx.symbolic import Poly, Term, Var, new_var, new_const, parse
from pyzx.utils import VertexType, EdgeType, phase_is_clifford, phase_is_pauli, phase_to_s

RULE = "random diagrams, circuits and polynomials over Boolean and continuous variables x operation x assignments of values; non-trivial when the operation changed a symbolic phase or diagram; distinct by input"
ASSUMPTIONS = ["Boolean variables take the values 0 and 1, continuous variables any real value; the variables of one diagram keep their types",
               "a scalar that the library marks as unknown is compared up to a nonzero factor"]
NEED = ["simp:" + s for s in ('full_reduce', 'clifford_simp', 'interior_clifford_simp', 'spider_simp', 'pivot_simp', 'lcomp_simp', 'gadget_simp', 'to_gh', 'to_graph_like')] + [
    "simp:boolean", "simp:continuous", "simp:changed", "arith:add", "arith:mul", "arith:mod", "arith:neg", "arith:sub", "arith:pow", "arith:div", "arith:equal", "arith:pauli", "arith:clifford", "arith:substitute",
    "text", "json", "graph:adjoint", "graph:compose", "graph:tensor", "graph:copy", "graph:set_phase", "graph:subgraph", "graph:merge", "circuit", "circuit:adjoint", "extract", "teleport", "rule:fuse", "rule:pi", "rule:strong_comp", "rule:copy", "rule:color", "refused"]
NAMES = ['a', 'b', 'theta', 'x', 'y', 'phi0', 'flag', 's_1', 't', 'e', 'spin', 'B']
BOOL = {'a': True, 'b': True, 'x': True, 'theta': False, 'y': False, 'phi0': False, 'flag': True, 's_1': True, 't': False, 'e': False, 'spin': True, 'B': True}


def value(p, env):
    """The number a phase stands for."""
    if not isinstance(p, Poly):
        return p
    tot = Fraction(0)
    for c, t in p.terms:
        for v, k in t.vars:
            c = c * env[v.name] ** k
        tot = tot + c
    return tot


def assignment(r, exact=True):
    return {n: r.randrange(2) if BOOL[n] else Fraction(r.randrange(-40, 41), r.choice([7, 5, 4, 3, 1, 11])) for n in NAMES}


def poly(r, data=None, bools=None, degree=2, terms=None):
    """A random polynomial made with the public operations, and the same as a plain expression."""
    names = [n for n in NAMES if bools is None or BOOL[n] == bools]
    data = BOOL if data is None else data
    p = new_const(0) if r.random() < .3 else Poly([])
    for _ in range(terms if terms is not None else r.randrange(6, 13) if r.random() < .06 else r.randrange(1, 4)):
        d = r.choice([0, 1, 1, 1, 2, 3, 4][:3 + degree])
        vs = [r.choice(names) for _ in range(d)]
        if d > 2 and r.random() < .6: # a higher power
            vs = [vs[0]] * (d - 1) + [vs[1]]
        boolean = all(BOOL[n] for n in vs)
        c = r.choice([1, 1, 2, -1, 3, Fraction(1, 2), Fraction(3, 2), Fraction(1, 4), -Fraction(1, 2), Fraction(-7, 4), Fraction(5, 3)] if r.random() < .5 else [1, 1, -1])
        t = new_const(c)
        for n in vs:
            t = t * new_var(n, data if isinstance(data, dict) and r.random() < .8 else BOOL[n])
        p = p + t
    return p


def number(s, env):
    """The value of a Scalar with symbolic entries."""
    if s.is_zero:
        return 0j
    val = ref.ephase(value(s.phase, env)) * np.sqrt(2) ** s.power2 * s.floatfactor
    for n in s.phasenodes:
        val *= 1 + ref.ephase(value(n, env))
    return val


def tensor(g, env):
    return ref.tensor(g, scalar=False, subs=lambda p: value(p, env)) * (1 if g.scalar.is_unknown else number(g.scalar, env))


def symbolise(r, g, bools=None, frac=.5, tie=.5):
    """Replace some phases by polynomials."""
    g.variable_types.update({n: BOOL[n] for n in NAMES})
    pool = [poly(r, g.variable_types, bools) for _ in range(3)]
    some = False
    for v in list(g.vertices()):
        if int(g.type(v)) in (1, 2) and r.random() < frac:
            p = r.choice(pool) if r.random() < tie else poly(r, g.variable_types, bools)
            if r.random() < .2:
                p = -p
            elif r.random() < .2:
                p = p + gen.phase(r, 'cliffordT')
            g.set_phase(v, p)
            some = True
    if r.random() < .2:
        g.scalar.add_phase(poly(r, g.variable_types, bools))
    return some


def envs(r, k=3):
    return [assignment(r) for _ in range(k)]


def agree(case, mech, a, b, es, unknown, what):
    for e, x, y in zip(es, a, b):
        if unknown and (np.abs(x).max() < 1e-9 or np.abs(y).max() < 1e-9):
            continue
        ok = ref.close_up_to_scalar(x, y)[0] if unknown else ref.close(x, y, 1e-6, 1e-8)
        if not ok:
            case.fail(mech, "%s: with %s the result differs (%s)" % (what(), {k: str(v) for k, v in e.items()}, ref.describe(x, y)))


SIMPS = ['full_reduce', 'full_reduce', 'clifford_simp', 'interior_clifford_simp', 'spider_simp', 'id_simp', 'pivot_simp', 'lcomp_simp', 'gadget_simp', 'supplementarity_simp', 'to_gh', 'to_graph_like', 'bialg_simp', 'phase_free_simp', 'copy_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'to_rg']
GLONLY = ('copy_simp', 'pivot_gadget_simp', 'pivot_boundary_simp')


def texts(g):
    return [(v, phase_to_s(g.phase(v))) for v in g.vertices()]


def k_simp(case):
    r = case.rng
    name = r.choice(SIMPS)
    bools = r.choice([True, True, None, False])
    if name in GLONLY or r.random() < .5:
        g = gen.graphlike(r, n=r.randrange(1, 9), gadgets=r.randrange(4), phases=r.choice(['clifford', 'cliffordT', 'pauli']))
    else:
        g = gen.diagram(r, n_spiders=r.randrange(1, 9), phases=r.choice(['clifford', 'cliffordT', 'pauli']))
    if not symbolise(r, g, bools, r.choice([.2, .5, .9])):
        raise Skip("no symbolic phase")
    es = envs(r)
    before = [tensor(g, e) for e in es]
    text = gen.show(g)
    f = getattr(simplify, name)
    f(g) if name in ('to_gh', 'to_graph_like', 'to_rg') else f(g, quiet=True)
    after = [tensor(g, e) for e in es]
    agree(case, "simp:" + name, before, after, es, g.scalar.is_unknown, lambda: "%s of %s gives %s" % (name, text, gen.show(g)))
    case.see("simp:" + name)
    case.see("simp:boolean" if bools else "simp:continuous")
    if gen.show(g) != text:
        case.see("simp:changed")
        case.note(name, text)


def k_arith(case):
    r = case.rng
    p, q = poly(r, degree=r.choice([2, 2, 3, 4])), poly(r)
    env = assignment(r)
    a, b = value(p, env), value(q, env)
    op = r.choice(['add', 'sub', 'mul', 'neg', 'mod', 'pow', 'div', 'equal', 'pauli', 'clifford', 'substitute', 'const', 'order', 'copy'])
    before = str(p), str(q)
    # Boolean terms are kept modulo 2 (the unit is pi): sums and differences agree modulo 2
    def same(x, want, exact=False):
        d = value(x, env) - want
        return d == 0 or (not exact and d % 2 == 0)
    show = lambda: "p = %s, q = %s, %s" % (p, q, {k: str(v) for k, v in env.items()})
    if op == 'add':
        case.check(same(p + q, a + b), "arith:add", lambda: "p + q = %s; %s" % (p + q, show()))
    elif op == 'sub':
        case.check(same(p - q, a - b), "arith:sub", lambda: "p - q = %s; %s" % (p - q, show()))
        case.check((p - p) == 0, "arith:sub", lambda: "p - p = %s; %s" % (p - p, show()))
    elif op == 'neg':
        case.check(same(-p, -a), "arith:neg", lambda: "-p = %s; %s" % (-p, show()))
        case.check((p + -p) == 0, "arith:neg", lambda: "p + -p = %s; %s" % (p + -p, show()))
    elif op == 'mod':
        case.check(same(p % 2, a), "arith:mod", lambda: "p %% 2 = %s; %s" % (p % 2, show()))
    elif op == 'const':
        c = r.choice([2, -1, Fraction(1, 2), Fraction(-3, 4), 0, 1])
        case.check(same(p + c, a + c) and same(c + p, a + c), "arith:add", lambda: "p + %s = %s; %s" % (c, p + c, show()))
        case.check(same(p - c, a - c) and same(c - p, c - a), "arith:sub", lambda: "p - %s = %s, %s - p = %s; %s" % (c, p - c, c, c - p, show()))
        if Fraction(c).denominator == 1:
            case.check(same(p * c, a * c) and same(c * p, a * c), "arith:mul", lambda: "p * %s = %s; %s" % (c, p * c, show()))
        op = 'mul'
    elif op == 'mul':
        # only polynomials whose Boolean part is integral are closed under products modulo 2
        u, w = [1 * n for n in (new_var(r.choice(NAMES), BOOL), new_var(r.choice(NAMES), BOOL))]
        x = u * r.choice([1, 2, Fraction(1, 2)]) ; y = w + r.choice([0, 1])
        want = value(x, env) * value(y, env)
        case.check(same(x * y, want), "arith:mul", lambda: "(%s) * (%s) = %s; %s" % (x, y, x * y, show()))
    elif op == 'pow':
        k = r.randrange(0, 5)
        u = new_var(r.choice(NAMES), BOOL) + r.choice([0, 1, 0])
        case.check(same(u ** k, value(u, env) ** k), "arith:pow", lambda: "(%s)**%d = %s; %s" % (u, k, u ** k, show()))
    elif op == 'div':
        c = r.choice([2, 4, Fraction(1, 2), -2])
        u = poly(r, bools=False, degree=1)
        case.check(abs(float(value(u / c, env)) - float(value(u, env) / c)) < 1e-9, "arith:div", lambda: "(%s) / %s = %s; %s" % (u, c, u / c, show()))
    elif op == 'equal':
        e2 = [assignment(r) for _ in range(4)] + [env]
        alt = sum([Poly([t]) for t in gen.shuffle(r, p.terms)], Poly([]))
        case.check(alt == p and hash(alt) == hash(p) and not alt != p, "arith:equal", lambda: "%s is not equal to its reordering %s" % (p, alt))
        t = p + new_var('a', BOOL) if r.random() < .5 else q
        # products of the same factors in another order or grouping are the same function
        fs = [new_var(r.choice(NAMES), BOOL) for _ in range(r.randrange(2, 5))]
        one = fs[0]
        for f in fs[1:]:
            one = one * f
        two = fs[-1]
        for f in fs[-2::-1]:
            two = f * two
        case.check(one == two and hash(one) == hash(two), "arith:equal", lambda: "the products %s and %s of %s are not equal" % (one, two, [str(f) for f in fs]))
        bs = [f for f in fs if all(v.is_bool for v in f.free_vars())]
        for f in bs: # a Boolean is its own square
            case.check(one * f == one and f * one == one and f ** r.randrange(2, 5) == f, "arith:equal", lambda: "(%s) * %s = %s" % (one, f, one * f))
        cs = [poly(r, bools=False, degree=2) for _ in range(3)]
        case.check((cs[0] + cs[1]) * cs[2] == cs[0] * cs[2] + cs[1] * cs[2], "arith:equal", lambda: "(p + q) * r is not p * r + q * r for %s" % [str(c) for c in cs])
        if t == p:
            case.check(all((value(t, e) - value(p, e)) % 2 == 0 for e in e2), "arith:equal", lambda: "%s == %s" % (t, p))
    elif op in ('pauli', 'clifford'):
        m = 1 if op == 'pauli' else 2
        u = poly(r, bools=r.choice([True, True, None]))
        f = phase_is_pauli if op == 'pauli' else phase_is_clifford
        if f(u):
            for e in [assignment(r) for _ in range(6)]:
                case.check((value(u, e) * m) % 1 == 0, "arith:" + op, lambda: "%s is called %s but takes the value %s" % (u, op, value(u, e)))
        else:
            # every Boolean polynomial with integral coefficients is Pauli
            if all(Fraction(c).denominator == 1 and all(v.is_bool for v, _ in t.vars) for c, t in u.terms):
                case.fail("arith:" + op, "%s is not called %s" % (u, op))
        for w in (gen.phase(r, 'wild') % 2, gen.phase(r, 'clifford') % 2):
            case.check(f(w) == ((w * m) % 1 == 0), "arith:" + op, lambda: "%s(%s) = %s" % (op, w, f(w)))
    elif op == 'substitute':
        part = {Var(n, BOOL[n]): env[n] for n in NAMES if r.random() < .6}
        s = p.substitute(part)
        case.check(abs(complex(float(value(s, env) - a) % 2, 0).real) < 1e-9 or abs(float(value(s, env) - a) % 2 - 2) < 1e-9, "arith:substitute", lambda: "%s with %s is %s; %s" % (p, {str(k): str(v) for k, v in part.items()}, s, show()))
        left = {v.name for v in s.free_vars()}
        case.check(not (left & {v.name for v in part}), "arith:substitute", lambda: "%s still has %s after substituting %s" % (s, left, part))
        case.check(p.free_vars() >= s.free_vars() and {v.name for v in p.free_vars()} == {v.name for _, t in p.terms for v, _ in t.vars}, "arith:substitute", lambda: "free variables of %s: %s" % (p, p.free_vars()))
    elif op == 'order':
        case.check((p < q) + (q < p) + (p == q) == 1, "arith:order", lambda: "neither or both of p < q and q < p: %s" % show())
        case.check((p <= q) == (not p > q) and (p >= q) == (not p < q), "arith:order", lambda: show())
        op = 'equal'
    else:
        c = p.copy()
        c.terms.append((1, Term([])))
        op = 'equal'
    case.check((str(p), str(q)) == before, "arith:unchanged", lambda: "%s changed its operands: %s" % (op, show()))
    case.see("arith:" + op)
    case.note(op, before)



def plain(x):
    return x if not isinstance(x, float) else Fraction(x).limit_denominator(10 ** 6)


def agree_poly(case, mech, p, q, es, what):
    """Two phases denote the same angle."""
    for e in es:
        d = value(p, e) - value(q, e)
        if d % 2 != 0 and abs(float(d) % 2) > 1e-9 and abs(float(d) % 2 - 2) > 1e-9:
            case.fail(mech, "%s: %s and %s differ with %s" % (what, p, q, {k: str(v) for k, v in e.items()}))


EXPRESSIONS = [('a', lambda e: e['a']), ('2*a', lambda e: 2 * e['a']), ('2a', lambda e: 2 * e['a']), ('1/2theta', lambda e: e['theta'] / 2), ('1/2*theta', lambda e: e['theta'] / 2),
               ('(a + b)', lambda e: e['a'] + e['b']), ('a*b + 1/4', lambda e: e['a'] * e['b'] + Fraction(1, 4)), ('theta*a+y', lambda e: e['theta'] * e['a'] + e['y']), ('pi*a', lambda e: e['a']),
               ('\\pi a'.replace(' a', '*a'), lambda e: e['a']), ('pi/2 + a', lambda e: e['a'] + Fraction(1, 2)), ('3pi/4 + theta', lambda e: e['theta'] + Fraction(3, 4)), ('theta + theta', lambda e: 2 * e['theta']), ('a + a', lambda e: 0), ('phi0*2*y', lambda e: 2 * e['phi0'] * e['y'])]


def k_text(case):
    r = case.rng
    es = envs(r, 4)
    new = lambda name: new_var(name, BOOL)
    if r.random() < .3:
        t, f = r.choice(EXPRESSIONS)
        p = parse(t, new)
        for e in es:
            case.check((value(p, e) - f(e)) % 2 == 0, "text", lambda: "%r is read as %s" % (t, p))
    p = poly(r)
    try:
        q = parse(str(p), new) if p.terms else Poly([])
    except Exception as ex:
        case.fail("text", "the printed form %r of a polynomial is not accepted: %s" % (str(p), type(ex).__name__))
    agree_poly(case, "text", p, q, es, "reading back %r" % str(p))
    case.check(phase_to_s(p) == str(p), "text", lambda: "phase_to_s of %s is %r" % (p, phase_to_s(p)))
    case.see("text")
    case.note('text', str(p))


def symbolic_diagram(r, bools=None, **kw):
    g = gen.graphlike(r, **kw) if r.random() < .5 else gen.diagram(r, **kw)
    symbolise(r, g, bools)
    return g


def k_json(case):
    r = case.rng
    g = symbolic_diagram(r)
    if r.random() < .3:
        g.scalar.add_node(poly(r, g.variable_types))
    es = envs(r)
    before = [tensor(g, e) for e in es]
    text = gen.show(g)
    try:
        h = Graph.from_json(g.to_json())
    except ValueError as ex:
        case.fail("json", "the JSON form of %s cannot be read back: %s" % (text, str(ex)[:200]))
    agree(case, "json", before, [tensor(h, e) for e in es], es, False, lambda: "JSON of %s gives %s" % (text, gen.show(h)))
    case.check(all(h.variable_types.get(k) == v for k, v in g.variable_types.items()), "json", lambda: "variable types %s became %s" % (g.variable_types, h.variable_types))
    case.see("json")
    case.note('json', text)


def variables(g):
    ps = [g.phase(v) for v in g.vertices()] + [g.scalar.phase] + list(g.scalar.phasenodes)
    return {x.name for p in ps if isinstance(p, Poly) for x in p.free_vars()}


def only_used(g):
    """Like a diagram that has no other variables than those in it."""
    u = variables(g)
    for n in list(g.variable_types):
        if n not in u:
            del g.variable_types[n]


def types_known(case, op, g):
    """The diagram knows of each of its variables what it is, also after it was saved."""
    u = variables(g)
    case.check(all(g.variable_types.get(n) == BOOL[n] for n in u), "graph:types", lambda: "%s: the diagram with the variables %s knows of %s" % (op, sorted(u), g.variable_types))
    try:
        h = Graph.from_json(g.to_json())
    except ValueError as ex:
        if 'unreducible' in str(ex):
            return
        raise
    got = {x.name: x.is_bool for v in h.vertices() if isinstance(h.phase(v), Poly) for x in h.phase(v).free_vars()}
    case.check(all(BOOL[n] == b for n, b in got.items()), "graph:types", lambda: "%s: after JSON the variables are %s" % (op, got))


def k_graph(case):
    r = case.rng
    op = r.choice(['adjoint', 'compose', 'tensor', 'copy', 'set_phase', 'add_to_phase', 'subgraph', 'merge'])
    es = envs(r)
    if op in ('set_phase', 'add_to_phase'):
        g = Graph(r.choice(['simple', 'multigraph']))
        g.variable_types.update(BOOL)
        p, q = poly(r, g.variable_types), r.choice([poly(r, g.variable_types), gen.phase(r, 'wild'), 0, 1])
        v = g.add_vertex(VertexType.Z, 0, 0, p) if r.random() < .5 else g.add_vertex(VertexType.Z)
        if op == 'set_phase' or r.random() < .5:
            g.set_phase(v, p)
        else:
            g.set_phase(v, 0)
            g.add_to_phase(v, p)
        agree_poly(case, "graph:" + op, g.phase(v), p, es, "setting the phase %s on the %s backend" % (p, g.backend))
        for _ in range(r.randrange(1, 4)):
            before = g.phase(v)
            g.add_to_phase(v, q)
            for e in es:
                agree_poly(case, "graph:" + op, value(g.phase(v), e), value(before, e) + value(q, e), [e], "adding %s to the phase %s on the %s backend" % (q, before, g.backend))
        case.see("graph:set_phase")
        return
    g = symbolic_diagram(r)
    only_used(g)
    text = gen.show(g)
    if op in ('subgraph', 'merge'):
        if op == 'subgraph':
            k = g.subgraph_from_vertices([v for v in g.vertices() if r.random() < .7])
        else:
            h = symbolic_diagram(r, n_in=r.randrange(2), n_out=r.randrange(2))
            only_used(h)
            k = g.copy(backend=r.choice(['simple', 'multigraph']))
            k.merge(h)
        types_known(case, op, k)
        case.see("graph:" + op)
        case.note(op, text)
        return
    if op == 'adjoint':
        h = g.adjoint()
        types_known(case, op, h)
        for e in es:
            a = ref.matrix(g, False, subs=lambda p: value(p, e)) * number(g.scalar, e)
            b = ref.matrix(h, False, subs=lambda p: value(p, e)) * number(h.scalar, e)
            if not ref.close(a.conj().T, b):
                case.fail("graph:adjoint", "the adjoint of %s is %s" % (text, gen.show(h)))
    elif op == 'compose':
        n = len(g.outputs())
        h = symbolic_diagram(r, n_in=n)
        want = [(ref.matrix(h, False, subs=lambda p: value(p, e)) @ ref.matrix(g, False, subs=lambda p: value(p, e))) * number(g.scalar, e) * number(h.scalar, e) for e in es]
        only_used(h)
        k = g + h
        types_known(case, op, k)
        agree(case, "graph:compose", want, [ref.matrix(k, False, subs=lambda p: value(p, e)) * number(k.scalar, e) for e in es], es, False, lambda: "%s followed by %s is %s" % (text, gen.show(h), gen.show(k)))
    elif op == 'tensor':
        h = symbolic_diagram(r, n_in=r.randrange(2), n_out=r.randrange(2))
        want = [np.kron(ref.matrix(g, False, subs=lambda p: value(p, e)), ref.matrix(h, False, subs=lambda p: value(p, e))) * number(g.scalar, e) * number(h.scalar, e) for e in es]
        only_used(h)
        k = g @ h
        types_known(case, op, k)
        agree(case, "graph:tensor", want, [ref.matrix(k, False, subs=lambda p: value(p, e)) * number(k.scalar, e) for e in es], es, False, lambda: "%s beside %s is %s" % (text, gen.show(h), gen.show(k)))
    else:
        op = 'copy'
        h = r.choice([lambda: g.copy(), lambda: g.clone(), lambda: g.copy(backend='multigraph'), lambda: g.copy(backend='multigraph').clone(), lambda: g.copy(backend='multigraph').copy()])()
        types_known(case, op, h)
        h.variable_types['new'] = True
        case.check('new' not in g.variable_types, "graph:types", "a copy shares the variable types of its original")
        del h.variable_types['new']
        agree(case, "graph:copy", [tensor(g, e) for e in es], [tensor(h, e) for e in es], es, False, lambda: "copy of %s is %s" % (text, gen.show(h)))
        case.check(h.variable_types == g.variable_types, "graph:copy", lambda: "variable types %s became %s" % (g.variable_types, h.variable_types))
        h2 = h.copy()
        for v in list(h2.vertices()):
            h2.add_to_phase(v, 1)
        h2.variable_types['zz'] = True
        case.check(gen.show(g) == text and 'zz' not in g.variable_types, "graph:copy", lambda: "changing a copy of %s changed it" % text)
    case.see("graph:" + op)
    case.note(op, text)


SYMGATES = ['ZPhase', 'XPhase', 'CRZ', 'CPhase', 'RZZ', 'ParityPhase', 'YPhase', 'CRX', 'CRY', 'RXX', 'U2', 'U3', 'CU3']


def symgate(r, n):
    name = r.choice(SYMGATES[:6] if n > 1 and r.random() < .6 else ['ZPhase', 'XPhase'])
    p = poly(r, bools=r.choice([None, True, False]))
    if name in ('ZPhase', 'XPhase'):
        return getattr(G, name)(r.randrange(n), p)
    q = r.sample(range(n), 2)
    if name == 'ParityPhase':
        return G.ParityPhase(p, *r.sample(range(n), r.randrange(1, n + 1)))
    # half angles need a polynomial that is not reduced modulo 2
    return getattr(G, name)(q[0], q[1], poly(r, bools=False)) if name != 'RZZ' else G.RZZ(q[0], q[1], p)


def plugged(gate, e):
    h = gate.copy()
    if hasattr(h, 'phase') and isinstance(h.phase, Poly):
        h.phase = value(h.phase, e)
    return h


def symcircuit(r, n=None, k=None):
    n = r.randrange(1, 4) if n is None else n
    c = Circuit(n)
    for _ in range(r.randrange(1, 12) if k is None else k):
        c.add_gate(symgate(r, n) if r.random() < .4 else gen.gate(r, n, gen.BASIC, 'cliffordT'))
    return c


def plug(c, e):
    d = Circuit(c.qubits)
    d.gates = [plugged(g, e) for g in c.gates]
    return d


def k_circuit(case):
    r = case.rng
    from .. import gref
    c = symcircuit(r)
    es = envs(r)
    text = str([str(g) for g in c.gates])
    want = [gref.circ(plug(c, e)) for e in es]
    op = r.choice(['graph', 'graph', 'adjoint', 'basic', 'extract', 'extract', 'twice', 'teleport', 'parse'])
    if op == 'graph':
        g = c.to_graph()
        got = [ref.matrix(g, False, subs=lambda p: value(p, e)) * number(g.scalar, e) for e in es]
    elif op == 'adjoint':
        d = c.adjoint()
        want = [m.conj().T for m in want]
        got = [gref.circ(plug(d, e)) for e in es]
    elif op == 'basic':
        got = [gref.circ(plug(c.to_basic_gates(), e)) for e in es]
    elif op in ('teleport', 'parse'):
        g = c.to_graph()
        if op == 'teleport':
            before = simplify.tcount(g)
            g = simplify.teleport_reduce(g)
            case.check(simplify.tcount(g) <= before, "circuit:teleport", lambda: "teleport_reduce raises the T-count of %s from %d to %d" % (text, before, simplify.tcount(g)))
            case.see("teleport")
        d = Circuit.from_graph(g, split_phases=r.random() < .5)
        got = [gref.circ(plug(d, e)) for e in es]
    elif op == 'twice':
        d = c.copy()
        d.add_circuit(c)
        want = [m @ m for m in want]
        got = [gref.circ(plug(d, e)) for e in es]
    else:
        g = c.to_graph()
        zx.simplify.full_reduce(g) if r.random() < .7 else zx.simplify.clifford_simp(g)
        d = zx.extract_circuit(g)
        got = [gref.circ(plug(d, e)) for e in es]
        case.see("extract")
    for e, x, y in zip(es, want, got):
        if not ref.close_up_to_phase(x, y):
            case.fail("circuit:" + op, "%s: %s with %s (%s)" % (op, text, {k: str(v) for k, v in e.items()}, ref.describe(x, y)))
    case.see("circuit:" + op if op == 'adjoint' else "circuit")
    case.note(op, text)


def k_rule(case):
    r = case.rng
    g = gen.diagram(r, n_spiders=r.randrange(2, 8), ph=r.choice([0, .3]))
    if not symbolise(r, g, r.choice([True, True, None]), r.choice([.4, .9])):
        raise Skip("no symbolic phase")
    es = envs(r)
    before = [tensor(g, e) for e in es]
    text = gen.show(g)
    name = r.choice(['fuse', 'pi', 'strong_comp', 'strong_comp', 'copy', 'color', 'unfuse'])
    done = False
    vs = gen.shuffle(r, list(g.vertices()))
    B = basicrules
    if name in ('fuse', 'strong_comp'):
        chk, f = (B.check_fuse, B.fuse) if name == 'fuse' else (B.check_strong_comp, B.strong_comp)
        if name == 'strong_comp':
            for e in gen.shuffle(r, list(g.edges()))[:2]:
                v, w = g.edge_st(e)
                if int(g.type(v)) in (1, 2) and int(g.type(w)) == 3 - int(g.type(v)):
                    for x in (v, w):
                        g.set_phase(x, r.choice([poly(r, g.variable_types, True, terms=1), new_var('a', g.variable_types), new_var('b', g.variable_types) + 1, 1]))
            before = [tensor(g, e) for e in es]
            text = gen.show(g)
        for e in gen.shuffle(r, list(g.edges())):
            v, w = g.edge_st(e)
            if chk(g, v, w):
                done = f(g, v, w)
                break
    else:
        chk, f = {'pi': (B.check_pi_commute_Z, B.pi_commute_Z) if r.random() < .5 else (B.check_pi_commute_X, B.pi_commute_X), 'copy': (B.check_copy_Z, B.copy_Z) if r.random() < .5 else (B.check_copy_X, B.copy_X),
                  'color': (B.check_color_change, B.color_change), 'unfuse': (lambda g, v: False, None)}[name]
        for v in vs:
            if chk(g, v):
                done = f(g, v)
                break
    if not done:
        raise Skip("no match")
    agree(case, "rule:" + name, before, [tensor(g, e) for e in es], es, g.scalar.is_unknown, lambda: "%s on %s gives %s" % (name, text, gen.show(g)))
    case.see("rule:" + name)
    case.note(name, text)


def k_library(case):
    """The rules of the rewrite-rule library and of the editor's table on symbolic diagrams."""
    r = case.rng
    name = r.choice(list(PAR) + ['phasepoly', 'unspider', 'editor', 'editor', 'editor', 'pivot', 'lcomp', 'copy', 'pivot_boundary', 'pivot_gadget'])
    bools = r.choice([True, True, None, False])
    if name == 'phasepoly':
        g = phasepoly_diagram(r)
    elif name in ('copy', 'pivot_gadget', 'pivot_boundary', 'gadgets', 'supplementarity') or r.random() < .5:
        g = gen.graphlike(r, n_in=r.randrange(2), n_out=r.randrange(3), n=r.randrange(1, 8), gadgets=r.randrange(3), phases=r.choice(['clifford', 'cliffordT', 'pauli']))
    else:
        g = gen.diagram(r, n_in=r.randrange(2), n_out=r.randrange(3), n_spiders=r.randrange(1, 8), phases=r.choice(['mix', 'clifford', 'pauli']), ph=r.choice([.1, .4]), px=r.choice([0, .3, .5]))
    if not symbolise(r, g, bools, r.choice([.2, .4, .8]) if name != 'phasepoly' else .1):
        raise Skip("no symbolic phase")
    es = envs(r, 2 if name == 'phasepoly' else 3)
    before = [tensor(g, e) for e in es]
    text = gen.show(g)
    unknown = name == 'phasepoly'
    try:
        if name == 'unspider':
            u = r.choice([v for v in sorted(g.vertices()) if int(g.type(v)) in (1, 2)])
            args = [u, [n for n in sorted(g.neighbors(u)) if len(list(g.edges(u, n))) == 1 and r.random() < .5]]
            R.unspider(g, args + ([r.choice([poly(r, g.variable_types, bools), gen.phase(r, 'mix')])] if r.random() < .7 else []))
        elif name == 'phasepoly':
            ms = R.match_gadgets_phasepoly(g)
            if not ms:
                raise Skip("no match")
            R.apply_gadget_phasepoly(g, ms)
        elif name == 'editor':
            name = r.choice([o for o in EA.operations if o != 'pauli' or True])
            d = EA.operations[name]
            univ = list(g.edges()) if d["type"] == EA.MATCHES_EDGES else list(g.vertices())
            p = r.choice([1, 1, .5])
            sel = set(x for x in univ if r.random() < p)
            name = 'editor ' + name
            ms = d["matcher"](g, lambda x: x in sel)
            if not ms:
                raise Skip("no match")
            etab, rv, re, _ = d["rule"](g, ms)
            g.remove_edges(re)
            g.remove_vertices(rv)
            g.add_edge_table(etab)
        else:
            par, single, rule, dom = PAR[name]
            ms = list(single(g)) if single is not None and r.random() < .25 else list(par(g))
            if len(ms) > 1 and name != 'gadgets' and r.random() < .3:
                ms = r.sample(ms, r.randrange(1, len(ms)))
            if not ms:
                raise Skip("no match")
            R.apply_rule(g, rule, ms)
    except ValueError as e:
        if 'unreducible' in str(e):
            raise Skip()
        raise
    except TypeError as e:
        if 'not Poly' in str(e):      # a value is needed (an isolated pair with a labelled box): refused
            raise Skip()
        raise
    agree(case, "library:" + name, before, [tensor(g, e) for e in es], es, unknown or g.scalar.is_unknown, lambda: "%s on %s gives %s" % (name, text, gen.show(g)))
    case.see("library:" + name)
    case.note(name, text)


def k_refuse(case):
    """What cannot be computed without values is refused, not computed wrongly."""
    r = case.rng
    g = symbolic_diagram(r, n_in=r.randrange(2), n_out=r.randrange(2))
    if g.num_vertices() > 9:
        raise Skip("large")
    syms = [v for v in g.vertices() if isinstance(g.phase(v), Poly) and any(t.vars for c, t in g.phase(v).terms if c != 0)]
    if not syms:
        raise Skip("no symbol")
    text = gen.show(g)
    try:
        t = g.to_tensor(preserve_scalar=r.random() < .5)
    except (NotImplementedError, ValueError, TypeError):
        case.see("refused")
        return
    # accepted only when the value does not depend on the symbols
    es = envs(r, 4)
    vals = [tensor(g, e) for e in es]
    if not all(ref.close_up_to_scalar(t, v)[0] for v in vals):
        case.fail("refuse", "to_tensor of a symbolic diagram gives %s: %s" % (t, text))


KINDS = {'simp': (k_simp, 5000, 100000), 'arith': (k_arith, 6000, 60000), 'text': (k_text, 1500, 15000), 'json': (k_json, 1500, 30000), 'graph': (k_graph, 3000, 60000), 'circuit': (k_circuit, 2500, 50000),
         'rule': (k_rule, 6000, 120000), 'library': (k_library, 5000, 100000), 'refuse': (k_refuse, 300, 3000)}
