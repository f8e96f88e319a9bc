"""P28: the interactive editor keeps the diagram, the front end and the undo stack together."""
import contextlib
import importlib
import io
import json
import math
import warnings
from collections import Counter
from fractions import Fraction
import numpy as np
from .. import gen, ref
from ..run import Skip
from ..model import differ, of, show, HAD, WIO, Z, X, B, H, ZB, WI, WO, S
from . import p04, p17, p27
import pyzx as zx
from pyzx import settings
from pyzx.graph import Graph
from pyzx.symbolic import Poly
from pyzx.tikz import tikz_to_graph, to_tikz_sequence
from pyzx.editor_actions import operations, MATCHES_EDGES

_old = settings.mode
settings.mode = 'notebook'
import pyzx.editor as editor
editor = importlib.reload(editor)
settings.mode = _old

RULE = "random diagrams opened in the editor; sessions of front-end events (moving, adding, deleting, changing phases, types of edges, selecting, clicking rewrites, undo, redo, copy, paste, snapshots, updates from Python); non-trivial when at least 5 events changed the diagram; distinct by the events"
ASSUMPTIONS = ["the front end is simulated: the state messages that its JavaScript sends are delivered to the widget", "positions are equal up to 1e-6", "rewrites which need a parallel edge that simple graphs cannot hold may be refused with a message",
               "phases entered in the front end are fractions as its dialog produces them", "the clipboard is a stand-in"]
EVENTS = ['move', 'add vertex', 'add edge', 'edge type', 'delete', 'phase', 'hbox phase', 'rewrite', 'undo', 'redo', 'undo at start', 'redo at end', 'branch', 'copy', 'paste', 'paste nonsense', 'update', 'snapshot', 'tikzit', 'refused', 'same']
NEED = ["event:" + e for e in EVENTS] + ["op:" + o for o in ('spider', 'to_z', 'to_x', 'rem_id', 'id_z', 'z_to_z_box', 'had2edge', 'fuse_hbox', 'mult_hbox', 'copy', 'pauli', 'bialgebra', 'euler', 'lcomp', 'pivot')] + ["symbolic", "big denominators", "ground", "zbox restored", "boundary restored", "matrix", "scalar", "maps_compared", "no inputs", "offered"]


class Clip:
    text = ''


editor.pyperclip.copy = lambda t: setattr(Clip, 'text', t)
editor.pyperclip.paste = lambda: Clip.text
TIKZ = []


def same(a, b, ins=True, tol=1e-6):
    """First difference of two models, positions up to rounding."""
    if set(a.v) != set(b.v):
        return "vertices %s, expected %s" % (sorted(a.v), sorted(b.v))
    for v, d in b.v.items():
        c = a.v[v]
        for k in ('ty', 'phase', 'ground'):
            if c[k] != d[k]:
                return "%s of %d is %s, expected %s" % (k, v, c[k], d[k])
        if {k: x for k, x in c['data'].items()} != {k: x for k, x in d['data'].items()}:
            return "data of %d is %s, expected %s" % (v, c['data'], d['data'])
        if abs(c['q'] - d['q']) > tol or abs(c['row'] - d['row']) > tol:
            return "%d is at %s, expected %s" % (v, (c['q'], c['row']), (d['q'], d['row']))
    if +a.e != +b.e:
        return "edges %s, expected %s" % (show(+a.e), show(+b.e))
    if ins and (tuple(a.ins) != tuple(b.ins) or tuple(a.outs) != tuple(b.outs)):
        return "inputs and outputs %s %s, expected %s %s" % (a.ins, a.outs, b.ins, b.outs)
    if abs(complex(a.scalar) - complex(b.scalar)) > 1e-9 * max(1, abs(complex(b.scalar))):
        return "scalar %s, expected %s" % (a.scalar, b.scalar)
    return None


def front_phase(s, ty):
    """What a phase label of the front end means; None if it is left to the program."""
    if s == '':
        return Fraction(1 if ty == H else 0)
    s = s.replace('π', '')
    if '/' in s:
        a, b = s.split('/')
        return Fraction({'': 1, '-': -1}.get(a) or int(a), int(b)) % 2
    return Fraction({'': 1, '-': -1}.get(s, 0) or int(s)) % 2


def phase_text(r, ty):
    """Labels that the dialog of the front end produces."""
    x = r.random()
    if x < .2:
        return ''
    if x < .35:
        return '0' if ty == H else 'π'
    a, b = r.choice([1, -1, 3, 5, -3, 7, 2, 11]), r.choice([2, 4, 3, 8, 5, 16, 64, 300])
    return {1: '', -1: '-'}.get(a, str(a)) + 'π/' + str(b)


def for_actions(case):
    """A diagram on which some of the rewrites match."""
    got = []
    old, p04.run = p04.run, lambda case, g, ops, *a, **k: got.append(g)
    try:
        case.rng.choice([p04.k_zx, p04.k_h, p04.k_w, p04.k_had, p04.k_par, p04.k_copy, p04.k_pauli, p04.k_bialg, p04.k_bialg, p04.k_euler])(case)
    finally:
        p04.run = old
    if not got:
        raise Skip()
    return got[0]


class Session:
    def __init__(self, case):
        r = self.r = case.rng
        self.case = case
        kind = r.choice(['any', 'any', 'graphlike', 'circuit', 'clifford', 'actions', 'actions'])
        self.symbolic = False
        if kind == 'any':
            self.symbolic = r.random() < .15
            g = p17.diagram(case, names=False, symbolic=self.symbolic, vdata=False, grounds=r.random() < .2, n=r.choice([0, 1, 3, 5, 8]) if r.random() < .95 else r.randrange(12, 25), parallel=False, backend='simple', rich=True)
        elif kind == 'actions':
            g = for_actions(case)
        elif kind == 'graphlike':
            g = gen.graphlike(r, phases='clifford' if r.random() < .5 else 'mix')
        else:
            g = gen.circuit(r, r.randrange(1, 4), r.choice([1, 4, 10]), names=gen.BASIC, mode='mix' if kind == 'circuit' else 'clifford').to_graph(zh=r.random() < .5)
        if r.random() < .25:
            for v in list(g.vertices()):
                if g.type(v) == Z and r.random() < .4 and not self.symbolic:
                    g.set_phase(v, Fraction(r.randrange(1, 2000), r.randrange(257, 1000)))
                    case.see("big denominators")
        # W nodes have two halves and one input
        for v in list(g.vertices()):
            if g.type(v) in (WI, WO) and not any(g.edge_type(e) == WIO for e in g.incident_edges(v)):
                g.remove_vertex(v)
        if any(g.type(v) == WI and len(g.incident_edges(v)) != 2 for v in g.vertices()):
            raise Skip()
        self.g = g
        self.mat = r.random() < .2 and g.num_vertices() < 10 and not self.symbolic
        self.sca = r.random() < .3
        self.log = ["%s (inputs %s outputs %s)" % (gen.show(g), g.inputs(), g.outputs())]
        kw = {}
        if r.random() < .5:
            kw['scale'] = r.choice([10, 20, 33.3, 50])
        if self.mat:
            kw['show_matrix'] = True
        if self.sca:
            kw['show_scalar'] = True
        before = of(g)
        settings.mode = 'notebook'
        p27.SHOWN.clear()
        with self.watch('edit'):
            self.w = editor.edit(g, **kw)
        if not self.mat:
            self.check("opened", same(of(g), before, tol=0))
        case.check(self.w in p27.SHOWN and (self.w.scalar_view in p27.SHOWN) == self.sca and (self.w.matrix_view in p27.SHOWN) == self.mat, "displayed", lambda: "the editor displays %s" % p27.SHOWN)
        self.stack, self.pos = [self.now()], 0
        self.kind = kind
        self.changes = 0
        self.fresh = False
        self.agree("edit")
        if any(g.is_ground(v) for v in g.vertices()):
            case.see("ground")
        if self.symbolic:
            case.see("symbolic")

    def now(self):
        if any(isinstance(x, Poly) for x in [self.g.scalar.phase] + list(self.g.scalar.phasenodes)):  # the number is not known
            raise Skip()
        return of(self.g)

    @contextlib.contextmanager
    def watch(self, what, allow=()):
        """Run an event; an exception printed below the editor is a failure."""
        out = io.StringIO()
        self.refused = False
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            yield
        t = out.getvalue()
        if 'Traceback' in t or 'Error' in t:
            if any(a in t for a in allow):
                self.refused = True
            else:
                self.case.fail("error:" + what, "%s prints %s" % (self.say(), t[-500:]))

    def say(self):
        return "after " + "; ".join(self.log[-12:] if len(self.log) < 13 else self.log[:1] + ['...'] + self.log[-10:])

    def check(self, what, d):
        self.case.check(not d, what, lambda: "%s: %s" % (self.say(), d))

    @property
    def fe(self):
        return json.loads(self.w.graph_json)

    @property
    def sel(self):
        return json.loads(self.w.graph_selected)

    def agree(self, what):
        """The front end shows the diagram."""
        f, g = self.fe, self.g
        m = self.now()
        d = differ(g, m)
        self.check(what + ":graph", d)
        nodes = {n['name']: n for n in f['nodes']}
        self.case.check(set(nodes) == set(m.v) and len(nodes) == len(f['nodes']), what + ":nodes", lambda: "%s the front end shows the nodes %s, the diagram has %s" % (self.say(), sorted(nodes), sorted(m.v)))
        sc = g.scale
        for v, x in m.v.items():
            n = nodes[v]
            self.case.check(n['t'] == int(x['ty']), what + ":type", lambda: "%s the front end shows %s, the diagram has type %s" % (self.say(), n, x['ty']))
            self.case.check(abs(n['x'] / sc - 1 - x['row']) < 1e-6 and abs(n['y'] / sc - 2 - x['q']) < 1e-6, what + ":position", lambda: "%s the front end shows %s, the diagram has %s" % (self.say(), n, x))
            if x['ty'] in (Z, X, H) and not isinstance(x['phase'], Poly):
                t = n['phase']
                if t.startswith('~'):
                    ok = x['phase'].denominator > 256
                else:
                    ok = front_phase(t, x['ty']) == x['phase']
                self.case.check(ok, what + ":phase", lambda: "%s the front end shows %s, the diagram has phase %s" % (self.say(), n, x['phase']))
            elif isinstance(x['phase'], Poly):
                self.case.check(n['phase'] == str(x['phase']), what + ":phase", lambda: "%s the front end shows %s, the diagram has phase %s" % (self.say(), n, x['phase']))
        links = Counter(tuple(sorted((l['source'], l['target']))) + (l['t'],) for l in f['links'])
        self.case.check(links == Counter((a, b, int(t)) for a, b, t in (+m.e).elements()), what + ":links", lambda: "%s the front end shows the links %s, the diagram has %s" % (self.say(), sorted(links), show(+m.e)))
        if self.sca:
            s = g.scalar.to_latex()
            self.case.check(self.w.scalar_view.value in ("Scalar: " + (s or '1'), ), what + ":scalar", lambda: "%s the scalar %s is shown as %s" % (self.say(), s, self.w.scalar_view.value))
            self.case.see("scalar")
        if self.mat and not any(x['ground'] or isinstance(x['phase'], Poly) or x['ty'] in (ZB, WI, WO) for x in m.v.values()):
            t = self.w.matrix_view.value
            if t.startswith("Couldn't") or t.startswith("Matrix too"):
                return
            if g.num_inputs() + g.num_outputs() != sum(x['ty'] == B for x in m.v.values()):
                return
            try:
                u = ref.matrix(g)
            except ref.TooBig:
                return
            if abs(u).max(initial=0) > 50 or any(abs(x) < 1e-2 for x in u[abs(u) > 1e-9]):
                return
            a, rows = p27.entries(t)
            fac = p27.read(a) if a not in ('', '-') else (-1 if a else 1)
            got = fac * np.array([[p27.read(c) for c in q] for q in rows])
            big = max(1, abs(got).max(initial=0))
            self.case.check(got.shape == u.shape and abs(got - u).max(initial=0) <= .03 * big * max(1, abs(fac), 1 / max(abs(fac), 1e-3)), what + ":matrix", lambda: "%s the matrix %s is shown as %s" % (self.say(), u.tolist(), t))
            self.case.see("matrix")

    def push(self, what, old):
        """A new state of the diagram: it goes on the undo stack."""
        self.fresh = False
        if self.w.graph_json == old:
            self.case.see("event:same")
            return False
        if self.pos:
            self.case.see("event:branch")
        self.stack = self.stack[:len(self.stack) - self.pos] + [self.now()]
        self.pos = 0
        self.changes += 1
        self.case.see("event:" + what)
        return True

    def edit(self, what, f, want):
        """The front end sends a new drawing; want is the model it stands for."""
        old = self.w.graph_json
        with self.watch(what):
            self.w.set_state({'graph_json': json.dumps(f), 'last_operation': what})
        self.check(what, same(self.now(), want, ins=not self.mat))
        self.push(what, old)
        self.agree(what)

    # --- events
    def move(self):
        f, m = self.fe, self.now()
        if not f['nodes']:
            return
        for n in self.r.sample(f['nodes'], self.r.randrange(1, len(f['nodes']) + 1)):
            n['x'] += self.r.choice([-30, 7.5, 100, .25])
            n['y'] += self.r.choice([0, 15, -3])
            m.v[n['name']]['row'] = n['x'] / self.g.scale - 1
            m.v[n['name']]['q'] = n['y'] / self.g.scale - 2
        self.log.append("move")
        self.edit('move', self.strip(f), m)

    @staticmethod
    def strip(f):
        return {'links': f['links'], 'nodes': [{k: n[k] for k in ('name', 'x', 'y', 't', 'phase')} for n in f['nodes']]}

    def add_vertex(self):
        f, m = self.fe, self.now()
        v = max([n['name'] for n in f['nodes']], default=-1) + 1
        ty = self.r.choice([B, Z, X, H])
        x, y = self.r.choice([20, 77.5, 130]), self.r.choice([10, 64.5, 200])
        f['nodes'].append({'name': v, 'x': x, 'y': y, 't': int(ty), 'phase': ''})
        m.v[v] = dict(ty=ty, phase=Fraction(ty == H), q=y / self.g.scale - 2, row=x / self.g.scale - 1, ground=False, data={})
        self.log.append("add %s as %d" % (ty.name, v))
        self.edit('add vertex', self.strip(f), m)

    def add_edge(self):
        f, m = self.fe, self.now()
        if len(m.v) < 2:
            return
        a, b = self.r.sample(sorted(m.v), 2)
        if f['links'] and self.r.random() < .4:  # drawn over one that is there
            l = self.r.choice(f['links'])
            a, b = l['source'], l['target']
            if l['t'] != int(WIO):
                l['t'], t = self.r.choice([(1, S), (2, HAD)])
                m.e = Counter({k: n for k, n in m.e.items() if k[:2] != tuple(sorted((a, b)))})
                m.e[tuple(sorted((a, b))) + (t,)] += 1
                self.log.append("edge %d %d becomes %s" % (a, b, t.name))
                self.edit('edge type', self.strip(f), m)
            return
        if m.between(a, b) or m.v[a]['ty'] in (WI,) or m.v[b]['ty'] in (WI,):
            return
        t = self.r.choice([S, HAD])
        f['links'].append({'source': a, 'target': b, 't': int(t)})
        m.e[tuple(sorted((a, b))) + (t,)] += 1
        self.log.append("edge %d %d %s" % (a, b, t.name))
        self.edit('add edge', self.strip(f), m)

    def delete(self):
        f, m = self.fe, self.now()
        s = self.sel
        vs = {n['name'] for n in s['nodes']} & set(m.v)
        # the two halves of a W go together
        io = [k[:2] for k in +m.e if k[2] == WIO]
        vs |= {v for k in io if set(k) & vs for v in k}
        ls = {tuple(sorted((l['source'], l['target']))) for l in s['links']} - set(io)
        if not vs and not ls:
            return
        f['nodes'] = [n for n in f['nodes'] if n['name'] not in vs]
        f['links'] = [l for l in f['links'] if l['source'] not in vs and l['target'] not in vs and tuple(sorted((l['source'], l['target']))) not in ls]
        self.gone_box = any(m.v[v]['ty'] == ZB for v in vs)
        self.gone_b = any(v in m.ins + m.outs for v in vs)
        for v in vs:
            m.drop(v)
        m.e = Counter({k: n for k, n in m.e.items() if k[:2] not in ls})
        self.log.append("delete %s %s" % (sorted(vs), sorted(ls)))
        self.edit('delete', self.strip(f), m)
        with self.watch('select'):
            self.w.set_state({'graph_selected': json.dumps({'nodes': [], 'links': []})})
        if self.r.random() < .5:
            self.undo()
            if self.gone_box:
                self.case.see("zbox restored")
            if self.gone_b:
                self.case.see("boundary restored")

    def phase(self):
        f, m = self.fe, self.now()
        c = [n for n in f['nodes'] if n['t'] in (1, 2, 3)]
        if not c:
            return
        n = self.r.choice(c)
        n['phase'] = phase_text(self.r, n['t'])
        m.v[n['name']]['phase'] = front_phase(n['phase'], n['t'])
        self.log.append("phase %s of %d" % (n['phase'], n['name']))
        self.edit('hbox phase' if n['t'] == 3 else 'phase', self.strip(f), m)

    def select(self):
        f = self.strip(self.fe)
        p = self.r.choice([.2, .5, .9, 1] + [1] * 6 * (self.kind == 'actions'))
        nodes = [n for n in f['nodes'] if self.r.random() < p]
        links = [l for l in f['links'] if self.r.random() < p * self.r.choice([0, 1])]
        before = self.now()
        told = self.w.graph_selected
        with self.watch('select'):
            self.w.set_state({'graph_selected': json.dumps({'nodes': nodes, 'links': links})})
        self.check("select", same(self.now(), before, tol=0))
        if self.w.graph_selected != told:
            self.offered(nodes, links)
        self.fresh = True
        self.log.append("select %s %s" % ([n['name'] for n in nodes], [(l['source'], l['target']) for l in links]))

    def offered(self, nodes, links):
        """The buttons offered are those whose rewrite matches within the selection."""
        g = self.g.clone()
        vs = {n['name'] for n in nodes}
        es = {frozenset((l['source'], l['target'])) for l in links} | {frozenset((v, w)) for v in vs for w in vs if g.connected(v, w)}
        try:
            want = {o: len(d['matcher'](g, (lambda e: frozenset(g.edge_st(e)) in es) if d['type'] == MATCHES_EDGES else (lambda v: v in vs))) != 0
                    for o, d in operations.items()}
        except Exception:
            return  # the front end is told nothing then
        got = {o: bool(b['active']) for o, b in json.loads(self.w.graph_buttons).items()}
        self.case.check(got == want, "offered", lambda: "%s offered are %s, the rewrites that match are %s" % (self.say(), sorted(o for o in got if got[o]), sorted(o for o in want if want[o])))
        self.case.see("offered")

    def rewrite(self):
        """Click a button."""
        if self.r.random() < .7:
            self.select()
        fresh = self.fresh
        btn = json.loads(self.w.graph_buttons)
        on = [b for b in btn if btn[b]['active']]
        if not on:
            return
        op = self.r.choice(on)
        g = self.g
        before = self.now()
        special = any(x['ground'] or isinstance(x['phase'], Poly) for x in before.v.values())
        wired = set(before.ins + before.outs) == {v for v, x in before.v.items() if x['ty'] == B} and len(set(before.ins + before.outs)) == len(before.ins + before.outs)
        legs = all(len(before.nbrs(v)) == 1 for v, x in before.v.items() if x['ty'] == B)
        u = None
        if wired and legs and not special and len(before.v) < 26:
            try:
                u = ref.matrix(g)
            except (ref.TooBig, ref.BadDiagram):
                u = None
        if op in ('lcomp', 'pivot') and any(x['ty'] not in (B, Z) for x in before.v.values()) and u is not None:
            pass
        old = self.w.graph_json
        s = self.sel
        picked = {n['name'] for n in s['nodes']} | {v for l in s['links'] for v in (l['source'], l['target'])}
        self.log.append("click %s" % op)
        with self.watch('rewrite:' + op, allow=('unreducible',) + (('AssertionError',) if self.symbolic else ())):
            self.w.set_state({'button_clicked': op})
        self.case.check(self.w.button_clicked == '', "button", lambda: "%s the button stays pressed" % self.say())
        if self.refused:
            self.check("refused", same(self.now(), before, ins=not self.mat))
            self.agree("refused")
            self.case.see("event:refused")
            return
        self.case.check(self.w.graph_json != old or not fresh, "active", lambda: "%s nothing happened" % self.say())
        self.push('rewrite', old)
        self.agree('rewrite')
        now = self.now()
        picked |= {v for k in +before.e if k[2] == WIO and set(k[:2]) & picked for v in k[:2]}  # both halves of a W
        lost = {v for v in before.v if v not in picked and v not in now.v}
        if op not in ('copy', 'mult_hbox'):
            self.case.check(not lost, "selection", lambda: "%s the vertices %s vanished although they were not selected" % (self.say(), lost))
        if u is not None:
            try:
                v = ref.matrix(g) if not self.mat else None
            except ref.TooBig:
                v = None
            if v is not None:
                boxes = any(x['ty'] == ZB for x in list(before.v.values()) + list(now.v.values()))
                self.case.check(v.shape == u.shape and ref.close(u, v, tol=2e-6, atol=1e-6 if boxes else 1e-10), "map:" + op, lambda: "%s the map changed: %s" % (self.say(), ref.describe(u, v)))
                self.case.see("maps_compared")
        self.case.see("op:" + op)

    def undo(self):
        at = self.pos == len(self.stack) - 1
        self.log.append("undo")
        with self.watch('undo'):
            self.w.set_state({'action': 'undo'})
        if not at:
            self.pos += 1
        self.check("undo", same(self.now(), self.stack[len(self.stack) - 1 - self.pos], ins=not self.mat))
        self.case.check(self.w.action == '', "action", "the action stays set")
        self.agree('undo')
        self.case.see("event:undo at start" if at else "event:undo")

    def redo(self):
        at = self.pos == 0
        self.log.append("redo")
        with self.watch('redo'):
            self.w.set_state({'action': 'redo'})
        if not at:
            self.pos -= 1
        self.check("redo", same(self.now(), self.stack[len(self.stack) - 1 - self.pos], ins=not self.mat))
        self.agree('redo')
        self.case.see("event:redo at end" if at else "event:redo")

    def copy(self):
        m = self.now()
        if any(isinstance(x['phase'], Poly) for x in m.v.values()):
            return
        if len({(round(x['q'], 2), round(x['row'], 2)) for x in m.v.values()}) < len(m.v):
            return
        s = [n['name'] for n in self.sel['nodes']]
        if any(v not in m.v for v in s):
            return
        self.log.append("copy %s" % s)
        with self.watch('copy'):
            self.w.set_state({'action': 'copy'})
        self.check("copy:changed", same(self.now(), m, tol=0))
        h = tikz_to_graph(Clip.text, warn_overlap=False, backend='multigraph')
        keep = {k: n for k, n in (+m.e).items() if k[0] in s and k[1] in s}
        if any(k[2] == HAD and B in (m.v[k[0]]['ty'], m.v[k[1]]['ty']) for k in keep) or any(m.v[v]['phase'].denominator > 256 for v in s):
            return
        at = lambda q, r: (round(q, 2) + 0., round(r, 2) + 0.)
        c1 = Counter((h.type(v), h.phase(v)) for v in h.vertices())
        c2 = Counter((m.v[v]['ty'], m.v[v]['phase']) for v in s)
        self.case.check(c1 == c2, "copy:vertices", lambda: "%s the clipboard has %s, selected are %s" % (self.say(), c1, c2))
        e1 = Counter((h.edge_type(e), *sorted((int(h.type(a)), int(h.type(b))))) for e in h.edges() for a, b in [h.edge_st(e)])
        e2 = Counter((t, *sorted((int(m.v[a]['ty']), int(m.v[b]['ty'])))) for a, b, t in keep)
        self.case.check(e1 == e2, "copy:edges", lambda: "%s the clipboard has %s, selected are %s" % (self.say(), e1, e2))
        self.case.see("event:copy")

    def paste(self):
        r = self.r
        m = self.now()
        if r.random() < .25:
            Clip.text = r.choice(['', 'hello', 'a\nb', '\\begin{tikzpicture}\n', '\n\n'])
            self.log.append("paste nonsense")
            with self.watch('paste nonsense'):
                self.w.set_state({'action': 'paste'})
            self.check("paste nonsense", same(self.now(), m))
            self.case.check(self.w.action == '', "paste nonsense:action", lambda: "%s the action stays set, so that another one has no effect" % self.say())
            self.case.see("event:paste nonsense")
            return
        h = Graph()
        k = r.randrange(0, 5)
        for i in range(k):
            h.add_vertex(r.choice([B, Z, X, H]), r.choice([0, 1, 2.5, -1]), i * r.choice([1, -1]) + r.choice([0, .25]))
        for v in h.vertices():
            if h.type(v) != B:
                h.set_phase(v, r.choice([0, 1, Fraction(1, 2), Fraction(3, 4)]))
        for i in range(k):
            for j in range(i):
                if r.random() < .4:
                    h.add_edge((j, i), HAD if r.random() < .5 and B not in (h.type(i), h.type(j)) else S)
        Clip.text = h.to_tikz()
        old = self.w.graph_json
        self.log.append("paste %s" % gen.show(h))
        with self.watch('paste'):
            self.w.set_state({'action': 'paste'})
        now = self.now()
        new = sorted(set(now.v) - set(m.v))
        a = now.copy()
        for v in new:
            a.drop(v)
        self.check("paste:old", same(a, m, ins=not self.mat))
        hm = of(h)
        ren = dict(zip(sorted(hm.v), new))
        self.case.check(len(new) == len(hm.v), "paste:size", lambda: "%s %d new vertices for %d" % (self.say(), len(new), len(hm.v)))
        off = {(round(now.v[ren[v]]['q'] - x['q'], 6), round(now.v[ren[v]]['row'] - x['row'], 6)) for v, x in hm.v.items()}
        self.case.check(all((now.v[ren[v]]['ty'], now.v[ren[v]]['phase']) == (x['ty'], x['phase']) for v, x in hm.v.items()) and len(off) <= 1
                        and Counter({k: n for k, n in (+now.e).items() if k[0] in new or k[1] in new}) == Counter({tuple(sorted((ren[a], ren[b]))) + (t,): n for (a, b, t), n in (+hm.e).items()}),
                        "paste:new", lambda: "%s new are %s" % (self.say(), gen.show(self.g)))
        self.case.check({n['name'] for n in self.sel['nodes']} == set(new), "paste:selected", lambda: "%s %s is selected" % (self.say(), self.sel))
        # an empty clipboard diagram still takes a step of the undo stack
        self.stack = self.stack[:len(self.stack) - self.pos] + [now]
        self.pos = 0
        self.agree('paste')
        self.case.see("event:paste")

    def update(self):
        """The diagram is changed from Python."""
        r, g = self.r, self.g
        vs = [v for v in g.vertices() if g.type(v) in (Z, X) and not isinstance(g.phase(v), Poly)]
        old = self.w.graph_json
        if vs and r.random() < .6:
            g.set_phase(r.choice(vs), Fraction(r.randrange(8), 4))
        elif r.random() < .5 and not any(g.is_ground(v) or g.type(v) not in (Z, X, B) for v in g.vertices()):
            try:
                zx.simplify.spider_simp(g, quiet=True)
            except ValueError as e:
                if 'unreducible' in str(e):
                    raise Skip()
                raise
            except TypeError as e:
                if 'isolated boundary' in str(e):
                    raise Skip()
                raise
        else:
            g.add_vertex(Z, 1, 1.5, Fraction(1, 4))
            g.scalar.add_power(3)
        self.log.append("change in Python, update")
        want = self.now()
        with self.watch('update'):
            self.w.update()
        self.check("update", same(self.now(), want, ins=not self.mat))
        self.push('update', old)
        self.agree('update')
        self.select()

    def snapshot(self):
        r = self.r
        if r.random() < .6 or not self.w.snapshots:
            n = len(self.w.snapshots)
            with self.watch('snapshot'):
                self.w.set_state({'action': 'snapshot'})
            s = self.w.snapshots
            self.case.check(len(s) == n + 1 and s[-1] is not self.g and s[-1].num_vertices() == self.g.num_vertices() and s[-1].num_edges() == self.g.num_edges(), "snapshot", lambda: "%s the snapshots are %s" % (self.say(), s))
            self.taken = getattr(self, 'taken', []) + [gen.show(s[-1])]
            self.case.see("event:snapshot")
        else:
            TIKZ.clear()
            keep, editor.tikz.tikzit = editor.tikz.tikzit, TIKZ.append
            try:
                with self.watch('tikzit'):
                    self.w.set_state({'action': 'tikzit'})
            finally:
                editor.tikz.tikzit = keep
            self.case.check(TIKZ == [to_tikz_sequence(self.w.snapshots + [self.g])], "tikzit", lambda: "%s the editor is given %s" % (self.say(), TIKZ))
            self.case.see("event:tikzit")
        self.case.check([gen.show(s) for s in self.w.snapshots] == self.taken, "snapshot:changed", lambda: "%s a snapshot has changed" % self.say())


def k_session(case):
    r = case.rng
    old = settings.mode
    s = None
    try:
        s = Session(case)
        if not s.g.inputs() and not s.g.outputs():
            case.see("no inputs")
        acts = [s.move, s.add_vertex, s.add_edge, s.delete, s.phase, s.phase, s.select, s.rewrite, s.rewrite, s.rewrite, s.rewrite, s.rewrite, s.undo, s.undo, s.redo, s.copy, s.paste, s.update, s.snapshot]
        for _ in range(r.choice([3, 8, 15])):
            if s.g.num_vertices() > (30 if not s.mat else 12):
                s.undo()
                continue
            r.choice(acts)()
        if r.random() < .3:
            while s.pos < len(s.stack) - 1:
                s.undo()
            while s.pos:
                s.redo()
    finally:
        settings.mode = old
        if s is not None and hasattr(s, 'w'):
            s.w.close()
    if s.changes >= 5:
        case.note("session", s.log)
        case.sample("; ".join(s.log)[:1000])


KINDS = {'session': (k_session, 9000, 200000)}
