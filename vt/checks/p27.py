"""P27: drawings and printed matrices."""
import cmath
import contextlib
import io
import json
import math
import os
import re
import stat
import sys
import tempfile
import types
import warnings
from collections import Counter
from fractions import Fraction
import numpy as np
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib import patches as mp
    from matplotlib.colors import to_hex, to_rgb
    import IPython.display
    import ipywidgets
from .. import gen, ref
from ..run import Skip
from ..model import differ, of, HAD, WIO, Z, X, B, H, ZB, WI, WO, S
from . import p17
import pyzx as zx
from pyzx import drawing, settings
from pyzx.circuit import Circuit
from pyzx.graph import Graph
from pyzx.tikz import to_tikz, tikzit
from pyzx.symbolic import Poly

SHOWN = []
IPython.display.display = lambda *a, **k: SHOWN.extend(a)
drawing.display = IPython.display.display
drawing.HTML = IPython.display.HTML

RULE = "random diagrams of all kinds and circuits drawn with random options, and random numbers and matrices printed; a drawing is read back; non-trivial when at least 3 vertices are drawn or the number is not a special case; distinct by diagram and options, or printed text"
ASSUMPTIONS = ["labels of phases with a denominator above 256 are rounded and marked with ~", "printed numbers have two decimals or are exact to 1e-4", "the front end is represented by the arguments that the page passes to showGraph; JavaScript is not run"]
NEED = ["mpl", "mpl:labels", "mpl:rows", "mpl:box", "mpl:blue", "mpl:scalar", "mpl:circuit", "mpl:bent", "mpl:limits", "d3", "d3:vdata", "d3:labels", "d3:setting", "d3:parallel", "d3:ground", "d3:circuit", "d3:refused", "draw:d3", "draw:matplotlib", "draw:shell",
        "complex:nice", "complex:any", "complex:scaled", "matrix", "matrix:zero", "matrix:unitary", "matrix:widget", "arrange", "pack", "gif", "tikzit"] + ["mpl:type%d" % t for t in (0, 1, 2, 3, 4, 5, 6)]


@contextlib.contextmanager
def mode(m, backend='d3', labels=False, hbox=False):
    old = settings.mode, settings.drawing_backend, settings.show_labels, settings.drawing_auto_hbox
    settings.mode, settings.drawing_backend, settings.show_labels, settings.drawing_auto_hbox = m, backend, labels, hbox
    SHOWN.clear()
    try:
        yield
    finally:
        settings.mode, settings.drawing_backend, settings.show_labels, settings.drawing_auto_hbox = old


def match(xs, ys, ok):
    """Does a perfect matching exist?"""
    if len(xs) != len(ys):
        return False
    cand = [[j for j, y in enumerate(ys) if ok(x, y)] for x in xs]
    m = {}

    def aug(i, seen):
        for j in cand[i]:
            if j not in seen:
                seen.add(j)
                if j not in m or aug(m[j], seen):
                    m[j] = i
                    return True
        return False
    return all(aug(i, set()) for i in range(len(xs)))


def near(p, q, e=1e-6):
    return abs(p[0] - q[0]) <= e and abs(p[1] - q[1]) <= e


def label_ok(text, ty, ph, lab):
    """Does this text (or None) tell the phase?"""
    if ty == ZB:
        if text is None:
            return False
        try:
            return abs(complex(text.replace(' ', '')) - complex(lab)) < 1e-9
        except ValueError:
            return text == str(lab)
    if isinstance(ph, Poly):
        return text == str(ph) if text is not None else str(ph) == ''
    ph = Fraction(ph)
    if text is None:
        return ph == (1 if ty == H else 0)
    m = re.fullmatch(r"(~?)(-?\d*)π(?:/(\d+))?|(0)", text)
    if not m:
        return False
    if m.group(4):
        return ph == 0
    n = {'': 1, '-': -1}.get(m.group(2))
    v = Fraction(int(m.group(2)) if n is None else n, int(m.group(3) or 1))
    if m.group(1):
        return ph.denominator > 256 and abs(v - ph) < Fraction(1, 256)
    return v == ph


STYLE = {}


def style(p):
    c = to_hex(p.get_facecolor())
    if isinstance(p, mp.Circle):
        return 'circle', c, round(p.get_radius(), 4)
    if isinstance(p, mp.Rectangle):
        return 'rectangle', c, (round(p.get_width(), 4), round(p.get_height(), 4))
    return type(p).__name__, c, None


def centre(p):
    if isinstance(p, mp.Circle):
        return tuple(p.get_center())
    if isinstance(p, mp.Rectangle):
        return tuple(p.get_center())
    b = p.get_path().vertices
    return (b[:, 0].min() + b[:, 0].max()) / 2, (b[:, 1].min() + b[:, 1].max()) / 2


def styles(case):
    """The way each kind of vertex and edge is drawn, taken from diagrams of their own."""
    if STYLE:
        return STYLE
    res = {}
    for ty in (B, Z, X, H, ZB, WI, WO):
        g = Graph()
        g.add_vertex(ty, 0, 0)
        f = drawing.draw_matplotlib(g)
        ps = f.axes[0].patches
        case.check(len(ps) == 1, "mpl:style", "a vertex of type %s is drawn as %s" % (ty, ps))
        res['v', ty] = style(ps[0])
    for et in (S, HAD, WIO):
        g = Graph()
        g.add_vertices(2)
        g.set_position(1, 0, 1)
        g.add_edge((0, 1), et)
        ls = drawing.draw_matplotlib(g).axes[0].lines
        case.check(len(ls) == 1, "mpl:style", "an edge of type %s is drawn as %s" % (et, ls))
        res['e', et] = to_hex(ls[0].get_color())
    case.check(len({v for k, v in res.items() if k[0] == 'v'}) == 7 and len({v for k, v in res.items() if k[0] == 'e'}) == 3, "mpl:style", "kinds of vertices or edges look the same: %s" % res)
    z, x, h = (to_rgb(res['v', t][1]) for t in (Z, X, H))
    case.check(z[1] > max(z[0], z[2]) and x[0] > max(x[1], x[2]) and min(h[0], h[1]) > h[2] and to_rgb(res['v', ZB][1]) == z, "mpl:style", "Z is not green, X not red or H not yellow: %s" % res)
    STYLE.update(res)
    return STYLE


def subject(case, **kw):
    r = case.rng
    if r.random() < .15:
        c = gen.circuit(r, r.randrange(1, 4), r.choice([1, 4, 9]), names=gen.BASIC, mode='mix')
        return c, c.to_graph(zh=True)
    g = p17.diagram(case, **kw)
    if r.random() < .3:
        for v in list(g.vertices()):
            g.set_position(v, r.choice([0, 1, 2, 3, 4]), r.choice([0, 1, 2]))
    return g, g


def info(g):
    """(type, phase, label, position) of the vertices, and the edges."""
    vs = {v: (g.type(v), g.phase(v), g.vdata(v, 'label', 1) if g.type(v) == ZB else None, (float(g.row(v)), -float(g.qubit(v)))) for v in g.vertices()}
    es = [(*g.edge_st(e), g.edge_type(e)) for e in g.edges()]
    return vs, es


def k_mpl(case):
    r = case.rng
    st = styles(case)
    sub, g = subject(case, symbolic=r.random() < .2, n=r.choice([0, 1, 3, 5, 8, 12]))
    vs, es = info(g)
    before = of(g)
    kw = {}
    labels = r.random() < .4
    if labels:
        kw['labels'] = True
        case.see("mpl:labels")
    box = r.random() < .4
    if box:
        kw['h_edge_draw'] = 'box'
    if r.random() < .3:
        kw['figsize'] = (r.choice([3, 8]), r.choice([2, 5]))
    sc = r.random() < .2
    if sc:
        kw['show_scalar'] = True
    if r.random() < .25:
        lo = r.choice([-2, 0, 1, 1.5])
        hi = lo + r.choice([0, 1, 2, 4])
        kw['rows'] = (lo, hi)
        vs = {v: x for v, x in vs.items() if lo <= x[3][0] <= hi}
        es = [e for e in es if e[0] in vs and e[1] in vs]
        case.see("mpl:rows")
    if r.random() < .3:
        how = r.choice(['shell', 'notebook'])
        with mode(how, 'matplotlib'):
            fig = zx.draw(sub, **kw)
        case.see("draw:shell" if how == 'shell' else "draw:matplotlib")
    else:
        fig = zx.draw_matplotlib(sub, **kw)
    what = lambda: "the drawing %s of %s" % (kw, gen.show(g))
    case.check(isinstance(fig, matplotlib.figure.Figure) and len(fig.axes) == 1 and not plt.get_fignums(), "mpl:figure", lambda: "%s is %r, figures %s left open" % (what(), fig, plt.get_fignums()))
    if 'figsize' in kw:
        case.check(tuple(fig.get_size_inches()) == kw['figsize'], "mpl:figsize", what)
    d = differ(g, before) if sub is g else None
    case.check(not d, "mpl:changed", lambda: "%s changed the diagram: %s" % (what(), d))
    ax = fig.axes[0]
    segs = [((l.get_xdata()[0], l.get_ydata()[0]), (l.get_xdata()[-1], l.get_ydata()[-1]), to_hex(l.get_color())) for l in ax.lines]
    shapes, boxes = [], []
    for p in ax.patches:
        if isinstance(p, mp.PathPatch) and not p.get_fill():
            q = p.get_path().vertices
            segs.append((tuple(q[0]), tuple(q[-1]), to_hex(p.get_edgecolor())))
            case.see("mpl:bent")
        elif box and style(p)[:2] == st['v', H][:2] and style(p) != st['v', H]:
            boxes.append(centre(p))
        else:
            shapes.append((style(p), centre(p)))
    want = [(st['v', x[0]], x[3]) for x in vs.values()]
    case.check(match(want, shapes, lambda a, b: a[0] == b[0] and near(a[1], b[1])), "mpl:vertices", lambda: "%s shows the vertices %s, not %s" % (what(), shapes, want))
    # edges
    we = [(vs[s][3], vs[t][3], st['e', S if box and k == HAD else k]) for s, t, k in es]
    case.check(match(we, segs, lambda a, b: a[2] == b[2] and (near(a[0], b[0]) and near(a[1], b[1]) or near(a[0], b[1]) and near(a[1], b[0]))), "mpl:edges", lambda: "%s shows the edges %s, not %s" % (what(), segs, we))
    if box:
        wb = [(vs[s][3], vs[t][3]) for s, t, k in es if k == HAD]

        def on(e, c):
            (a, b), (x, y) = e
            dx, dy = x - a, y - b
            q = dx * dx + dy * dy
            if q < 1e-9:
                return near((a, b), c, .3)
            u = ((c[0] - a) * dx + (c[1] - b) * dy) / q
            return .2 <= u <= .8 and near((a + u * dx, b + u * dy), c)
        case.check(match(wb, boxes, on), "mpl:hadamards", lambda: "%s shows Hadamards at %s for the edges %s" % (what(), boxes, wb))
        if wb:
            case.see("mpl:box")
    elif any(k == HAD for _, _, k in es):
        case.see("mpl:blue")
    # texts
    texts = [(t.get_text(), t.get_position()) for t in ax.texts]
    wt = [('phase', x) for x in vs.values() if not label_ok(None, *x[:3])]
    if labels:
        wt += [('name', (str(v), x[3])) for v, x in vs.items()]
    if sc:
        wt.append(('scalar', g.scalar.to_latex()))
        case.see("mpl:scalar")

    def says(w, t):
        if w[0] == 'scalar':
            return t[0] == w[1]
        if w[0] == 'name':
            return t[0] == w[1][0] and near(t[1], w[1][1], .4)
        return label_ok(t[0], *w[1][:3]) and abs(t[1][0] - w[1][3][0]) < .1 and abs(t[1][1] - w[1][3][1]) < .6
    case.check(match(wt, texts, says), "mpl:texts", lambda: "%s shows the texts %s for %s" % (what(), texts, wt))
    if r.random() < .1 and vs:
        fig.savefig(io.BytesIO(), format='svg')
        (a, b), (c, d) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        case.check(all(a <= x[3][0] <= b and c <= x[3][1] <= d for x in vs.values()), "mpl:limits", lambda: "%s cuts off vertices at %s %s" % (what(), ax.get_xlim(), ax.get_ylim()))
        case.see("mpl:limits")
    for x in vs.values():
        case.see("mpl:type%d" % x[0])
    if sub is not g:
        case.see("mpl:circuit")
    case.see("mpl")
    if len(vs) >= 3:
        case.note("mpl", kw, gen.show(g))


def js_args(text):
    """The arguments of the last call of showGraph in a page."""
    s = text[text.rindex("showGraph(") + len("showGraph("):]
    dec = json.JSONDecoder()

    def string(i):
        q, i, out = s[i], i + 1, []
        while s[i] != q:
            c = s[i]
            if c == '\n':
                raise ValueError("a line break inside a JavaScript string")
            if c == '\\':
                c, i = s[i + 1], i + 1
                if c == 'u':
                    out.append(chr(int(s[i + 1:i + 5], 16)))
                    i += 5
                    continue
                c = {'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f'}.get(c, c)
            out.append(c)
            i += 1
        return ''.join(out), i + 1
    args, i = [], 0
    while True:
        while s[i] in ' \n\t\r':
            i += 1
        if s[i] == ')':
            return args
        if s.startswith('JSON.parse(', i):
            v, i = string(i + 11)
            if s[i] != ')':
                raise ValueError("JSON.parse( is followed by %r" % s[i:i + 30])
            args.append(json.loads(v))
            i += 1
        elif s[i] in '\'"':
            v, i = string(i)
            args.append(v)
        else:
            v, i = dec.raw_decode(s, i)
            args.append(v)
        while s[i] in ' \n\t\r':
            i += 1
        if s[i] == ',':
            i += 1
        elif s[i] != ')':
            raise ValueError("%r follows an argument" % s[i:i + 30])


def k_d3(case):
    r = case.rng
    sub, g = subject(case, symbolic=r.random() < .2, n=r.choice([0, 1, 3, 5, 8, 12]))
    kw = {}
    keys = []
    if sub is g and r.random() < .5:
        pool = ['it', "it's", 'a"b', 'back\\slash', 'new\nline', 'π/4', 0, 1.5, [1, 2], {'x': "y'"}, True, 'k</b>']
        for v in list(g.vertices()):
            for k in ('d3a', 'd3n', "b'"):
                if r.random() < .4:
                    g.set_vdata(v, k, r.choice(pool))
        keys = r.sample(['d3a', 'd3n', "b'", 'absent'], r.randrange(1, 4))
        kw['vdata'] = keys
        case.see("d3:vdata")
    before = of(g)
    vs, es = info(g)
    labels, dl = r.random() < .3, r.random() < .2
    if labels:
        kw['labels'] = True
        case.see("d3:labels")
    ah, dh = r.choice([None, None, True, False]), r.random() < .3
    if ah is not None:
        kw['auto_hbox'] = ah
    scale = r.choice([None, None, 10, 35.5])
    if scale:
        kw['scale'] = scale
    sc = r.random() < .2
    if sc:
        kw['show_scalar'] = True
    if r.random() < .03:
        with mode('shell'):
            try:
                zx.draw_d3(sub)
                ok = False
            except Exception:
                ok = True
        case.check(ok and not SHOWN, "d3:refused", "draw_d3 works outside of a notebook")
        case.see("d3:refused")
    via = r.random() < .5
    with mode('notebook', labels=dl, hbox=dh):
        (zx.draw if via else zx.draw_d3)(sub, **kw)
        shown = list(SHOWN)
    if via:
        case.see("draw:d3")
    what = lambda: "the page (%s) for %s" % (kw, gen.show(g))
    case.check(len(shown) == 1 and isinstance(shown[0], IPython.display.HTML), "d3:shown", lambda: "%s: %s" % (what(), shown))
    page = shown[0].data
    d = differ(g, before) if sub is g else None
    case.check(not d, "d3:changed", lambda: "%s changed the diagram: %s" % (what(), d))
    try:
        args = js_args(page)
    except ValueError as e:
        case.fail("d3:script", "%s cannot be read by a browser: %s: ...%s" % (what(), e, page[-300:]))
    case.check(len(args) == 9, "d3:arguments", lambda: "%s has %d arguments" % (what(), len(args)))
    tag, j, w, h, s, size, hb, lb, sca = args
    case.check(re.search(r'<div[^>]*id="%s"' % re.escape(tag[1:]), page) and tag[0] == '#', "d3:id", lambda: "%s draws into %s" % (what(), tag))
    case.check(hb == (dh if ah is None else ah) and lb == (labels or (dl and via)), "d3:flags", lambda: "%s has auto_hbox %s labels %s; settings %s %s" % (what(), hb, lb, dh, dl))
    case.check(sca == (g.scalar.to_unicode() if sc else ''), "d3:scalar", lambda: "%s has scalar %r" % (what(), sca))
    case.check(s > 0 and size > 0 and (not scale or s == scale), "d3:scale", lambda: "%s has scale %s" % (what(), s))
    nodes = {n['name']: n for n in j['nodes']}
    case.check(len(j['nodes']) == len(vs) and set(nodes) == {str(v) for v in vs}, "d3:vertices", lambda: "%s has the nodes %s" % (what(), j['nodes']))
    off = None
    for v, (ty, ph, lab, (x, y)) in vs.items():
        n = nodes[str(v)]
        case.check(n['t'] == int(ty) and bool(n['ground']) == g.is_ground(v), "d3:type", lambda: "%s: %s" % (what(), n))
        case.check(label_ok(n['phase'] or None, ty, ph, lab), "d3:phase", lambda: "%s: %s" % (what(), n))
        o = (n['x'] - x * s, n['y'] + y * s)
        case.check(off is None or near(o, off, 1e-6), "d3:position", lambda: "%s: %s is not in its place" % (what(), n))
        off = o
        case.check(0 <= n['x'] <= w and 0 <= n['y'] <= h, "d3:outside", lambda: "%s: %s lies outside of the picture %s x %s" % (what(), n, w, h))
        case.check([tuple(p) for p in n['vdata']] == [(k, json.loads(json.dumps(g.vdata(v, k)))) for k in keys if g.vdata(v, k, None) is not None], "d3:vdata", lambda: "%s: %s" % (what(), n))
        if g.is_ground(v):
            case.see("d3:ground")
    fs = lambda a, b: tuple(sorted((str(a), str(b))))
    case.check(Counter((fs(a, b), int(k)) for a, b, k in es) == Counter((fs(l['source'], l['target']), l['t']) for l in j['links']), "d3:edges", lambda: "%s has the links %s" % (what(), j['links']))
    par = {}
    for l in j['links']:
        par.setdefault(fs(l['source'], l['target']), []).append(l)
    for p in par.values():
        case.check(sorted(l['index'] for l in p) == list(range(len(p))) and all(l['num_parallel'] == len(p) for l in p), "d3:parallel", lambda: "%s draws parallel edges on top of each other: %s" % (what(), p))
        if len(p) > 1:
            case.see("d3:parallel")
    if sub is not g:
        case.see("d3:circuit")
    if ah is None:
        case.see("d3:setting")
    case.see("d3")
    if len(vs) >= 3:
        case.note("d3", kw, gen.show(g))


class Tex:
    """Value of a printed number."""

    def __init__(self, s):
        self.s, self.i = s.strip(), 0

    def peek(self, *ts):
        while self.s[self.i:self.i + 1] == ' ':
            self.i += 1
        for t in ts:
            if self.s.startswith(t, self.i):
                return t
        return None

    def take(self, *ts):
        t = self.peek(*ts)
        if t is not None:
            self.i += len(t)
        return t

    def need(self, t):
        if self.take(t) is None:
            raise ValueError("%r expected at %d of %r" % (t, self.i, self.s))

    def all(self):
        v = self.sum()
        if self.peek('') is not None and self.i < len(self.s):
            raise ValueError("trailing %r in %r" % (self.s[self.i:], self.s))
        return v

    def sum(self):
        sign = -1 if self.take('-') else 1
        self.take('+')
        v = sign * self.product()
        while True:
            t = self.take('+', '-')
            if t is None:
                return v
            v += (1 if t == '+' else -1) * self.product()

    def product(self):
        v, n = 1, 0
        while True:
            self.peek('')
            if self.i >= len(self.s) or self.s[self.i] in '+-)}&' or self.s.startswith('\\right', self.i):
                break
            v = v * self.power()
            n += 1
        if not n:
            raise ValueError("nothing at %d of %r" % (self.i, self.s))
        return v

    def power(self):
        a = self.atom()
        if self.take('^'):
            e = self.group()
            a = cmath.exp(e) if a == 'e' else a ** e
        elif a == 'e':
            a = math.e
        return a

    def group(self):
        if self.take('{'):
            v = self.sum()
            self.need('}')
            return v
        self.peek('')
        d = self.s[self.i]
        self.i += 1
        return int(d)

    def atom(self):
        if self.take('\\frac'):
            a = self.group()
            return a / self.group()
        if self.take('\\sqrt'):
            return cmath.sqrt(self.group())
        if self.take('\\left('):
            v = self.sum()
            self.need('\\right)')
            return v
        if self.take('('):
            v = self.sum()
            self.need(')')
            return v
        if self.take('\\pi'):
            return math.pi
        if self.take('\\cdot'):
            return 1
        if self.take('e'):
            return 'e'
        if self.take('i'):
            return 1j
        m = re.compile(r"\d+(\.\d+)?").match(self.s, self.i)
        if not m:
            raise ValueError("%r at %d of %r" % (self.s[self.i:self.i + 5], self.i, self.s))
        self.i = m.end()
        return float(m.group())


def read(t):
    return complex(Tex(t).all())


def judge(case, z, t, nice, what):
    """Is t a representation of z?"""
    try:
        w = read(t)
    except (ValueError, IndexError, ZeroDivisionError, OverflowError) as e:
        case.fail("complex:unreadable", "%s: %r is printed as %r (%s)" % (what, z, t, e))
    m = re.search(r"10\^\{(-?\d+)\}", t)
    sc = 10.0 ** int(m.group(1)) if m else 1
    tol = (2.1e-4 if nice and '.' not in t and (nice == 2 or 'e^' not in t) else 7.6e-3) * max(sc, 0 if not m else sc)
    if not m:
        tol = max(tol, 2.1e-5 * abs(z))
    if abs(z) < 1e-7:
        tol = max(tol, 1e-7)
    case.check(abs(w - z) <= tol, "complex:value", lambda: "%s: %r is printed as %r which is %s" % (what, z, t, w))
    if m:
        case.see("complex:scaled")
    return abs(w - z)


R2 = math.sqrt(2)


def nice_part(r):
    return r.choice([0, 0, 1, -1, r.randrange(-9, 10), r.randrange(-9, 10) / R2, R2 * r.randrange(-5, 6), r.choice([1, -1]) * r.choice([1, 2, 3, .5, .25, 1 / 3]) + r.choice([1, -1]) * r.choice([R2, 3 ** .5, 3 ** .5 / 2, 1 / R2, 2 * R2, 1 / R2 / 2, 1 / R2 / 4])])


def nice(r):
    if r.random() < .5:
        rad = r.choice([1, 1, r.randrange(1, 20), r.randrange(1, 20) / R2, 2.0 ** r.randrange(-8, 8), R2 ** r.randrange(-12, 12), 2 ** (r.randrange(-20, 20) / r.choice([3, 5, 8])), abs(nice_part(r)) or 1])
        return 2, rad * cmath.exp(1j * math.pi * r.choice([0, 0, .5, 1, 1.5, .25, .75, r.randrange(0, 64) / 32, r.randrange(0, 40) / 20, r.randrange(-50, 50) / r.randrange(1, 65)]))
    return 1, complex(nice_part(r), nice_part(r))


def k_complex(case):
    r = case.rng
    for _ in range(20):
        if r.random() < .6:
            ok, z = nice(r)
            if abs(z) > 90 or 0 < abs(z) < .011:
                continue
        else:
            z, ok = complex(r.gauss(0, 1), r.gauss(0, 1)) * 10 ** r.choice([0, 0, 1, 2, 4, 7, -1, -2, -4, -6]), False
            if r.random() < .2:
                z = complex(z.real)
        z = r.choice([complex, complex, np.complex128])(z)
        t = drawing.pretty_complex(z)
        judge(case, z, t, ok, "pretty_complex")
        case.see("complex:nice" if ok else "complex:any")
        case.note("complex", t)


def entries(text):
    m = re.fullmatch(r"\\begin\{equation\}\n(.*)\n?\\begin\{pmatrix\}\n(.*)\n\\end\{pmatrix\}\n\\end\{equation\}", text, re.S)
    if not m:
        raise ValueError("not a matrix: %r" % text)
    f = m.group(1).strip()
    return f, [[c.strip() for c in row.split('&')] for row in m.group(2).split('\\\\')]


def k_matrix(case):
    r = case.rng
    x = r.random()
    src = None
    if x < .5:
        src = gen.circuit(r, r.randrange(1, 4), r.choice([0, 1, 4, 8]), names=gen.BASIC, mode=r.choice(['clifford', 'cliffordT', 'mix']))
        m = src.to_matrix()
        m[abs(m) < 1e-12] = 0
        case.see("matrix:unitary")
    elif x < .6:
        m = np.zeros((r.randrange(1, 4), r.randrange(1, 4)), dtype=complex)
        case.see("matrix:zero")
    else:
        f = r.choice([1, 1, nice(r)[1] or 1])
        m = np.array([[r.choice([0, 1, -1, nice(r)[1]]) * f for _ in range(r.randrange(1, 4))]] * 1)
        m = np.array([[r.choice([0, 0, 1, -1, 1j, nice(r)[1], complex(r.gauss(0, 1), r.gauss(0, 1))]) * f for _ in range(m.shape[1])] for _ in range(r.randrange(1, 4))], dtype=complex)
    if m.size and 0 < abs(m[m != 0]).min(initial=1) and abs(m[m != 0]).min(initial=1) < 1e-3:
        raise Skip("entries of very different size")
    keep = m.copy()
    if r.random() < .3:
        with mode('notebook'):
            zx.print_matrix(src if src is not None and r.random() < .5 else m)
            shown = list(SHOWN)
        case.check(len(shown) == 1 and isinstance(shown[0], ipywidgets.Label), "matrix:widget", lambda: "print_matrix shows %s" % shown)
        text = shown[0].value
        case.see("matrix:widget")
    else:
        text = zx.matrix_to_latex(m)
    case.check(np.array_equal(m, keep), "matrix:changed", "the matrix was changed")
    f, rows = entries(text)
    case.check(len(rows) == m.shape[0] and all(len(q) == m.shape[1] for q in rows), "matrix:shape", lambda: "a %s matrix is printed as %r" % (m.shape, text))
    try:
        fac = read(f) if f not in ('', '-') else (-1 if f else 1)
        got = np.array([[read(c) for c in q] for q in rows])
    except (ValueError, IndexError, ZeroDivisionError) as e:
        case.fail("matrix:unreadable", "%s is printed as %r: %s" % (m.tolist(), text, e))
    # factor and entries are each exact to two decimals, relative to their own power of ten
    big = max([abs(v) for v in got.flat] + [1])
    sizes = [10.0 ** int(k) for k in re.findall(r"10\^\{(-?\d+)\}", text)]
    fs = [10.0 ** int(k) for k in re.findall(r"10\^\{(-?\d+)\}", f)]
    ftol = 7.6e-3 * (fs[0] if fs else 1)
    if '.' not in f:
        ftol = 2.1e-4 * (fs[0] if fs else max(1, abs(fac) / 10))
    etol = (7.6e-3 if '.' in text else 2.1e-4) * max([1] + sizes)
    if x >= .6:
        etol, ftol = 7.6e-3 * max([1] + sizes), 7.6e-3 * (fs[0] if fs else 1)
    tol = ftol * big + etol * abs(fac) + 1e-6
    case.check(abs(fac * got - m).max(initial=0) <= tol, "matrix:value", lambda: "%s is printed as %r which is %s" % (m.tolist(), text, (fac * got).tolist()))
    case.see("matrix")
    case.note("matrix", text)


def k_layout(case):
    """Layout functions move vertices and do nothing else."""
    r = case.rng
    if r.random() < .5:
        g = gen.circuit(r, r.randrange(1, 4), r.choice([1, 5, 10, 20]), names=gen.BASIC, mode='cliffordT').to_graph()
        g.apply_state('0' * g.num_inputs())
        g.apply_effect('0' * g.num_outputs())
        zx.simplify.full_reduce(g, quiet=True) if r.random() < .8 else zx.simplify.interior_clifford_simp(g, quiet=True)
        f, name = drawing.arrange_scalar_diagram, "arrange"
    else:
        g = gen.circuit(r, r.randrange(1, 4), r.choice([1, 5, 10, 20]), names=gen.BASIC, mode='clifford').to_graph()
        nf = r.choice(['grg', 'gslc'])
        zx.simplify.clifford_simp(g, quiet=True)
        f, name = lambda h: drawing.pack_circuit_nf(h, nf), "pack"
    a = of(g)
    ins, outs = g.inputs(), g.outputs()
    f(g)
    pos = {v: (g.row(v), g.qubit(v)) for v in g.vertices()}
    for v, x in a.v.items():
        if v in pos:
            x['row'], x['q'] = pos[v]
    d = differ(g, a)
    case.check(not d and g.inputs() == ins and g.outputs() == outs, name + ":changed", lambda: "%s changed more than positions: %s" % (name, d))
    if name == 'pack':
        case.check(all(pos[v][0] == 0 for v in ins) and all(pos[v][0] == 4 for v in outs), "pack:boundary", lambda: "boundaries are at %s" % pos)
    case.see(name)
    case.note(name, gen.show(g))


def k_gif(case):
    r = case.rng
    seen = {}
    fake = types.ModuleType('imageio')

    def imread(f, *a, **k):
        with open(f, 'rb') as h:
            return h.read()

    def mimwrite(f, ims, *a, **k):
        seen.update(file=str(f), ims=list(ims), kw=k)
    fake.imread, fake.mimwrite = imread, mimwrite
    fake.v2 = fake
    old = {k: sys.modules.get(k) for k in ('imageio', 'imageio.v2')}
    sys.modules['imageio'] = sys.modules['imageio.v2'] = fake
    n = r.choice([1, 3, 6, 12])
    gs = []
    for i in range(n):
        g = Graph()
        for k in range(i + 1):
            g.add_vertex(Z, 0, k, Fraction(1, i + 2))
        gs.append(g)
    r.shuffle(gs)
    want = []
    for g in gs:
        b = io.BytesIO()
        drawing.draw_matplotlib(g).savefig(b, format='png')
        want.append(b.getvalue())
    try:
        dur = r.choice([.5, .2])
        with tempfile.TemporaryDirectory(prefix="vt-p27-") as d:
            name = os.path.join(d, 'x.gif')
            res = drawing.graphs_to_gif(gs, name, frame_duration=dur)
    finally:
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    case.check(seen.get('file') == name and res == os.path.abspath(name), "gif:file", lambda: "%s %s" % (seen.get('file'), res))
    case.check(seen['ims'] == want, "gif:frames", lambda: "the frames of %d diagrams come in the order %s" % (n, [want.index(x) if x in want else None for x in seen['ims']]))
    ds = seen['kw'].get('duration')
    case.check(ds is not None and len(ds) == n and all(x == dur for x in ds[:-1]), "gif:duration", lambda: "durations %s" % ds)
    case.see("gif")
    case.note("gif", n, dur)


def k_tikzit(case):
    """The external editor gets the picture."""
    r = case.rng
    sub, g = subject(case)
    old = settings.tikzit_location
    with tempfile.TemporaryDirectory(prefix="vt-p27-") as d:
        out, exe = os.path.join(d, 'out'), os.path.join(d, 'edit.sh')
        with open(exe, 'w') as f:
            f.write('#!/bin/sh\ncp "$1" "%s"\n' % out)
        os.chmod(exe, os.stat(exe).st_mode | stat.S_IXUSR)
        settings.tikzit_location = exe
        sc = r.random() < .3
        arg = r.choice([sub, to_tikz(g, sc)])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                tikzit(arg, sc)
        finally:
            settings.tikzit_location = old
        case.check(os.path.exists(out), "tikzit:called", "the editor was not called with the picture")
        with open(out) as f:
            text = f.read()
    case.check(text == to_tikz(g, sc), "tikzit:picture", lambda: "the editor got %r" % text)
    case.see("tikzit")
    case.note("tikzit", text)


KINDS = {'mpl': (k_mpl, 1600, 40000), 'd3': (k_d3, 4000, 120000), 'complex': (k_complex, 4000, 200000), 'matrix': (k_matrix, 3000, 100000), 'layout': (k_layout, 600, 20000), 'gif': (k_gif, 24, 400), 'tikzit': (k_tikzit, 150, 3000)}
