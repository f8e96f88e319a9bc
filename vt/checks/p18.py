"""P18: circuit description languages."""
import math
import os
import random
import re
import tempfile
from fractions import Fraction
import numpy as np
from .. import gen, gref, mon, ref, wide
from ..run import Skip
import pyzx as zx
from pyzx.circuit import Circuit
from pyzx.circuit.qasmparser import QASMParser
from pyzx.circuit.sqasm import sqasm

RULE = "circuits over all gate types written in each language and read by separate readers, and program texts generated together with their meaning and read by PyZX; non-trivial when the circuit has at least 3 gates and is not the identity; distinct by (language, text)"
ASSUMPTIONS = ["circuits are compared up to a global phase, angles at 1e-6", "phases in .qc are multiples of pi/4, FSim angles are as supported", "quipper labels are 0..n-1"]
FORMATS = ['qasm', 'qasm3', 'qc', 'quipper', 'emoji']
QBAD = ['gate', 'index', 'params', 'qubits', 'sizes', 'register', 'repeated', 'header', 'if', 'opaque', 'custom_params', 'custom_repeated', 'custom_qubits', 'noinclude']
NEED = ["write:" + f for f in FORMATS] + ["again:" + f for f in FORMATS[:4]] + ["gate:%s:%s" % (f, n) for f in FORMATS[:4] for n in gen.ALLG if n != 'FSim'] + ["qasm:" + n for n in
        ('v2', 'v3', 'custom', 'nested', 'broadcast', 'registers', 'comment', 'float', 'expression', 'ignored', 'lenient', 'reused', 'sameparser', 'odd')] + ["bad:" + b for b in QBAD] + [
        "load:" + e for e in ('qasm', 'qc', 'quipper', 'qsim', 'tfc', 'none', 'unknown', 'qgraph')] + ["qc:" + n for n in ('labels', 'ancilla4', 'ancilla5', 'ancilla6', 'comment', 'bad', 'swap')] + [
        "quipper:" + n for n in ('negative', 'subroutine', 'comment', 'adjoint', 'rotation', 'init', 'bad')] + ["qsim:" + n for n in ('rz', 'hz_1_2', 'x_1_2', 'y_1_2', 'fs', 'bad')] + ["sqasm:" + n for n in ('plain', 'simplified', 'A', 'Z', 'both')] + ["wide:" + n for n in FORMATS + ['read_qc', 'read_quipper', 'qsim', 'read_qasm']] + ["exact"]


def same(case, what, a, b, text):
    case.check(a.shape == b.shape, what + ":size", lambda: "%s: %s qubits instead of %s: %r" % (what, a.shape, b.shape, text))
    case.check(ref.close_up_to_phase(a, b, tol=2e-6), what, lambda: "%s: another circuit (%s): %r" % (what, ref.describe(a, b), text))


def phases(c):
    return [Fraction(x) for g in c.gates for x in [getattr(g, 'phase', 0), getattr(g, 'theta', 0), getattr(g, 'phi', 0)] if x is not None] + [Fraction(x) for g in c.gates for x in getattr(g, 'phases', None) or []]


def exact(case, what, c, most, text):
    """Fractions of pi come back as the same fractions, not as neighbouring floating-point numbers."""
    bad = [x for x in phases(c) if x.denominator > most]
    case.check(not bad, what, lambda: "a fraction of pi became %s: %r" % (bad[0], text))
    case.see("exact")


def probes(n):
    """Beyond seven qubits, maps are compared by what they make of one fixed random product state."""
    return wide.vecs(random.Random(n), n)


def circ_map(c):
    return gref.circ(c) if c.qubits <= 7 else run([gref.gate_matrix(g) for g in c.gates], c.qubits)


def run(ops, n):
    if n > 7:
        t = wide.product(probes(n))
        for m, qs in ops:
            t = gref.apply(t, m, qs)
        return t
    t = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    for m, qs in ops:
        t = gref.apply(t, m, qs)
    return t.reshape(2 ** n, 2 ** n)


# ---------------------------------------------------------------- meaning of OpenQASM gates (parameters in radians)
H, X, Y, Z = gref.HM, gref.XM, gref.YM, gref.ZM
c = gref.ctrl
QASM = {'x': (0, 1, lambda: X), 'y': (0, 1, lambda: Y), 'z': (0, 1, lambda: Z), 'h': (0, 1, lambda: H), 's': (0, 1, lambda: gref.P(math.pi / 2)), 't': (0, 1, lambda: gref.P(math.pi / 4)), 'sdg': (0, 1, lambda: gref.P(-math.pi / 2)), 'tdg': (0, 1, lambda: gref.P(-math.pi / 4)),
        'sx': (0, 1, lambda: gref.SXM), 'sxdg': (0, 1, lambda: gref.SXM.conj().T), 'rx': (1, 1, lambda a: gref.rot('x', a)), 'ry': (1, 1, lambda a: gref.rot('y', a)), 'rz': (1, 1, lambda a: gref.rot('z', a)), 'p': (1, 1, gref.P), 'u1': (1, 1, gref.P),
        'u2': (2, 1, lambda a, b: gref.u3(math.pi / 2, a, b)), 'u3': (3, 1, gref.u3), 'u': (3, 1, gref.u3), 'U': (3, 1, gref.u3), 'cx': (0, 2, lambda: c(X)), 'CX': (0, 2, lambda: c(X)), 'cy': (0, 2, lambda: c(Y)), 'cz': (0, 2, lambda: c(Z)), 'ch': (0, 2, lambda: c(H)), 'csx': (0, 2, lambda: c(gref.SXM)),
        'swap': (0, 2, lambda: gref.SWAPM), 'crx': (1, 2, lambda a: c(gref.rot('x', a))), 'cry': (1, 2, lambda a: c(gref.rot('y', a))), 'crz': (1, 2, lambda a: c(gref.rot('z', a))), 'cp': (1, 2, lambda a: c(gref.P(a))), 'cphase': (1, 2, lambda a: c(gref.P(a))), 'cu1': (1, 2, lambda a: c(gref.P(a))),
        'rxx': (1, 2, lambda a: np.cos(a / 2) * np.eye(4) - 1j * np.sin(a / 2) * np.kron(X, X)), 'rzz': (1, 2, lambda a: np.cos(a / 2) * np.eye(4) - 1j * np.sin(a / 2) * np.kron(Z, Z)), 'ccx': (0, 3, lambda: c(c(X))), 'ccz': (0, 3, lambda: c(c(Z))), 'cswap': (0, 3, lambda: c(gref.SWAPM)),
        'cu3': (3, 2, lambda a, b, d: c(gref.u3(a, b, d))), 'cu': (4, 2, lambda a, b, d, e: c(np.exp(1j * e) * gref.u3(a, b, d)))}


def read_qasm(text, version):
    """Reader for the text PyZX writes: one register, one gate per line."""
    lines = [l for l in text.split("\n") if l.strip()]
    head = ['OPENQASM 2.0;', 'include "qelib1.inc";'] if version == 2 else ['OPENQASM 3;', 'include "stdgates.inc";']
    if lines[:2] != head:
        raise ValueError("header %r" % lines[:2])
    m = re.fullmatch(r"qreg q\[(\d+)\];" if version == 2 else r"qubit\[(\d+)\] q;", lines[2])
    n = int(m.group(1))
    ops = []
    for l in lines[3:]:
        m = re.fullmatch(r"(\w+)(?:\(([^()]*)\))? (q\[\d+\](?:, q\[\d+\])*);", l)
        if not m:
            raise ValueError("line %r" % l)
        k, nq, f = QASM[m.group(1)]
        par = [float(p[:-3]) * math.pi for p in m.group(2).split(",")] if m.group(2) else []
        qs = [int(q[2:-1]) for q in m.group(3).split(", ")]
        if len(par) != k or len(set(qs)) != nq or len(qs) != nq or max(qs) >= n:
            raise ValueError("line %r" % l)
        ops.append((f(*par), qs))
    return run(ops, n)


def read_qc(text):
    head, body = text.split("BEGIN\n")
    names = head.split()[1:]
    if head.split()[0] != '.v' or len(set(names)) != len(names) or not body.rstrip().endswith("END"):
        raise ValueError("header")
    ops = []
    for l in body.rstrip()[:-3].split("\n"):
        if not l.strip():
            continue
        g, *q = l.split()
        q = [names.index(x) for x in q]
        base = {'H': H, 'X': X, 'Y': Y, 'Z': Z, 'S': gref.P(math.pi / 2), 'T': gref.P(math.pi / 4), 'S*': gref.P(-math.pi / 2), 'T*': gref.P(-math.pi / 4), 'Tof': X, 'swap': None}[g]
        if len(set(q)) != len(q) or not q:
            raise ValueError("line %r" % l)
        if len(q) > 1 and g not in ('Z', 'Tof'):
            raise ValueError("line %r" % l)
        for _ in q[1:]:
            base = c(base)
        ops.append((base, q))
    return run(ops, len(names))


def read_quipper(text):
    lines = text.split("\n")
    n = len(lines[0][8:].split(","))
    want = ", ".join("%d:Qbit" % i for i in range(n))
    if lines[0] != "Inputs: " + want or lines[-1] != "Outputs: " + want:
        raise ValueError("frame")
    ops = []
    for l in lines[1:-1]:
        if not l.strip():
            continue
        m = re.fullmatch(r'QRot\["exp\(-i%([XYZ])\)",([-+.\de]+)\]\((\d+)\)', l)
        if m:
            ops.append((gref.rot(m.group(1).lower(), 2 * float(m.group(2))), [int(m.group(3))]))
            continue
        m = re.fullmatch(r'QGate\["(\w+)"\](\*?)\((\d+)\)(?: with controls=\[\+(\d+)(?:,\+(\d+))?\])?(?: with nocontrol)?', l)
        if not m:
            raise ValueError("line %r" % l)
        base = {'not': X, 'X': X, 'Y': Y, 'Z': Z, 'H': H, 'S': gref.P(math.pi / 2), 'T': gref.P(math.pi / 4)}[m.group(1)]
        if m.group(2):
            base = base.conj().T
        q = [int(x) for x in m.group(4, 5, 3) if x is not None]
        if len(set(q)) != len(q):
            raise ValueError("line %r" % l)
        for _ in q[1:]:
            base = c(base)
        ops.append((base, q))
    return run(ops, n)


def read_emoji(text):
    rows = [re.findall(r":(\w+):", l) for l in text.split("\n")]
    if len({len(r) for r in rows}) != 1 or "\n".join("".join(":%s:" % t for t in r) for r in rows) != text:
        raise ValueError("not a rectangle")
    ops = []
    for col in zip(*rows):
        q = 0
        while q < len(col):
            t = col[q]
            if t == 'W_':
                pass
            elif t == 'H_':
                ops.append((H, [q]))
            elif t in ('Zd', 'Xd'):
                k = q + 1
                while col[k] == 'Wud':
                    k += 1
                if col[k] != {'Zd': 'Xu', 'Xd': 'Zu'}[t]:
                    raise ValueError("column %s" % (col,))
                ops.append((c(X), [q, k] if t == 'Zd' else [k, q]))
                q = k
            else:
                m = re.fullmatch(r"([ZX])(\d*)p(\d*)", t)
                if not m:
                    raise ValueError("%s in %s" % (t, col))
                p = gref.P(math.pi * int(m.group(2) or 1) / int(m.group(3) or 1))
                ops.append((p if m.group(1) == 'Z' else H @ p @ H, [q]))
            q += 1
    return run(ops, len(rows))


def scratch():
    return tempfile.TemporaryDirectory(prefix="vt-p18-")


def k_write(case):
    r = case.rng
    f = r.choice(FORMATS)
    mode = r.choice(['cliffordT', 'clifford', 'wild', 'mix']) if f not in ('qc', 'emoji') else r.choice(['cliffordT', 'clifford'])
    names = sorted(gen.ALLG) if f != 'emoji' else ['ZPhase', 'XPhase', 'Z', 'NOT', 'S', 'T', 'HAD', 'CNOT', 'CZ', 'SX']
    nq = r.randrange(1, 5)
    if r.random() < .03:
        nq = r.randrange(8, 15)
        case.see("wide:" + f)
    circ = gen.circuit(r, nq, r.choice([0, 1, 3, 6, 10]) if nq < 8 else r.choice([10, 20, 30]), names=names, mode=mode)
    circ.name = 'c'
    s = mon.circ_snapshot(circ)
    u = circ_map(circ)
    sig = gen.show_circ(circ)
    try:
        if f == 'emoji':
            if any(g.phase % 2 == 0 for g in circ.gates if hasattr(g, 'phase')):
                circ.gates = [g for g in circ.gates if getattr(g, 'phase', 1) % 2]
                u, s = circ_map(circ), mon.circ_snapshot(circ)
            if not any(circ.gates):
                raise Skip("empty")
            from pyzx.circuit.emojiparser import circuit_to_emoji
            text = circ.to_emoji() if r.random() < .7 else circuit_to_emoji(circ, compress_rows=False)
        else:
            text = {'qasm': circ.to_qasm, 'qasm3': lambda: circ.to_qasm(3), 'qc': circ.to_qc, 'quipper': circ.to_quipper}[f]()
    except TypeError as e:
        if f == 'qc' and 'description' in str(e) and any(getattr(g, 'phase', Fraction(0)).denominator > 4 for g in circ.to_basic_gates().gates):
            raise Skip("phase without .qc description")
        if 'FSim' in str(e) and 'description' in str(e):
            raise Skip("FSim has no description")
        raise
    case.check(mon.circ_snapshot(circ) == s, "write:mutated", "writing changed the circuit")
    read = {'qasm': lambda t: read_qasm(t, 2), 'qasm3': lambda t: read_qasm(t, 3), 'qc': read_qc, 'quipper': read_quipper, 'emoji': read_emoji}[f]
    try:
        v = read(text)
    except (ValueError, KeyError, IndexError) as e:
        case.fail("write:" + f, "not a description in the language (%s): %r of %s" % (e, text, sig))
    same(case, "write:" + f, v, u, (text, sig))
    case.see("write:" + f)
    if circ.gates and len(circ.gates) > 2 and (nq > 7 or not ref.close_up_to_phase(u, np.eye(2 ** nq))):
        case.note(f, sig)
    case.sample(f + " " + text)
    if f == 'emoji':
        return
    for g in circ.gates:
        case.see("gate:%s:%s" % (f, 'Tof' if type(g).__name__ == 'Tofolli' else type(g).__name__))
    if r.random() < .75:
        d = {'qasm': Circuit.from_qasm, 'qasm3': Circuit.from_qasm, 'qc': Circuit.from_qc, 'quipper': Circuit.from_quipper}[f](text)
    else:
        d = load(case, {'qasm': 'qasm', 'qasm3': 'qasm', 'qc': 'qc', 'quipper': 'quipper'}[f], text)
    same(case, "again:" + f, circ_map(d), u, (text, sig))
    case.see("again:" + f)
    if all(x.denominator <= 1000 for x in phases(circ.to_basic_gates())):
        exact(case, "again:exact:" + f, d.to_basic_gates(), 8000, (text, sig))


def load(case, lang, text):
    """Through a file, with or without a telling extension."""
    r = case.rng
    ext = r.choice({'qasm': ['.qasm', '.qasm', '.openqasm', '', '.txt'], 'qc': ['.qc', '.tfc', '', '.txt'], 'quipper': ['.quipper', '.quip', '', '.circuit'], 'qsim': ['.qsim']}[lang])
    with scratch() as d:
        name = r.choice(['circ', 'my circuit', 'a.b']) + ext
        if ext == '' and name == 'a.b':
            name = 'ab'
        fn = os.path.join(d, name)
        with open(fn, 'w') as f:
            f.write(text)
        by_name = {'qasm': Circuit.from_qasm_file, 'qc': Circuit.from_qc_file, 'quipper': Circuit.from_quipper_file, 'qsim': Circuit.from_qsim_file}[lang]
        res = Circuit.load(fn) if r.random() < .8 or ext == '' else by_name(fn)
        case.check(res.name == name or "Subroutine" in text, "load:name", lambda: "the circuit of file %r is named %r" % (name, res.name))
        with open(fn) as f:
            case.check(f.read() == text, "load:changed", "loading changed the file")
    case.see("load:" + ('tfc' if ext == '.tfc' else lang))
    if ext == '':
        case.see("load:none")
    return res


# ---------------------------------------------------------------- QASM programs with their meaning
def angle(case, odd):
    """(text, value in radians, whether it has to be understood)"""
    r = case.rng
    n, d, m = r.randrange(1, 12), r.choice([1, 2, 3, 4, 5, 7, 8, 16, 100, 1024]), r.randrange(1, 9)
    pi = math.pi
    sg = r.choice(['', '', '-'])
    k = -1 if sg else 1
    x = r.random()
    if x < .25 or not odd and x < .35:
        f = r.choice([r.uniform(-7, 7), r.randrange(-4, 5), 1.5, 0.785398163397448, 1e-3])
        case.see("qasm:float")
        return repr(f), float(f), True
    if not odd or x < .45:
        t, v = r.choice([("%spi" % sg, k * pi), ("%spi/%d" % (sg, d), k * pi / d), ("%s%d*pi/%d" % (sg, n, d), k * n * pi / d), ("%s%d*pi" % (sg, n), k * n * pi), ("%s%.3f*pi" % (sg, n / 7), k * float("%.3f" % (n / 7)) * pi), ("%spi*%d/%d" % (sg, n, d), k * n * pi / d), ("%s%d * pi / %d" % (sg, n, d), k * n * pi / d)])
        return t, v, True
    case.see("qasm:expression")
    ch = [("%spi/%d*%d" % (sg, d, n), k * pi / d * n), ("pi+%d" % n, pi + n), ("%d-pi" % n, n - pi), ("pi-%d" % n, pi - n), ("%d*%d*pi" % (n, m), n * m * pi), ("%d*%d*pi/%d" % (n, m, d), n * m * pi / d), ("(pi/%d)" % d, pi / d), ("-(pi/%d)" % d, -pi / d), ("pi/%d+pi/%d" % (d, m), pi / d + pi / m),
          ("pi/%d-%d*pi/%d" % (d, n, m), pi / d - n * pi / m), ("%d/%d" % (n, d), n / d), ("%d*pi*%d/%d" % (n, m, d), n * m * pi / d), ("pi/%d/%d" % (d, m), pi / d / m), ("pi*0.%d" % n, pi * float("0.%d" % n)), ("0.%d*pi/%d" % (n, d), float("0.%d" % n) * pi / d), ("(%d+%d)*pi/%d" % (n, m, d), (n + m) * pi / d),
          ("%d*(pi/%d-pi)" % (n, d), n * (pi / d - pi)), ("%d*-pi/%d" % (n, d), -n * pi / d), ("+pi/%d" % d, pi / d), ("pi/(2*%d)" % d, pi / 2 / d), ("2e-1*pi", .2 * pi), ("-%d+pi" % n, pi - n)]
    may = [("sin(pi/%d)" % d, math.sin(pi / d)), ("sqrt(%d)" % n, math.sqrt(n)), ("pi^2", pi ** 2), ("pi**2", pi ** 2), ("%dpi/%d" % (n, d), n * pi / d), ("ln(%d)" % n, math.log(n)), ("%d(pi)" % n, n * pi), ("pi*pi", pi * pi), ("-pi^2", -pi ** 2), ("2-3-pi", -1 - pi), ("cos(0)*pi", pi)]
    if r.random() < .8:
        t, v = r.choice(ch)
        return t, v, True
    case.see("qasm:odd")
    t, v = r.choice(may)
    return t, v, False


def program(case, odd=True, bad=None, big=False):
    """(text, unitary, must be accepted, strict)"""
    r = case.rng
    v3 = r.random() < .4
    must = True
    regs = []
    names = r.sample(['q', 'r', 'anc', 'x1', 'gateq', 'reg_b', 'data'], r.choice([1, 1, 2, 3]))
    off = 0
    for nm in names:
        k = r.choice([1, 2, 2, 3])
        if big:
            k = r.choice([1, 2, 3, 10, 11, 12])
            k = k if off + k <= 14 else 1
        elif off + k > 5:
            k = 1
        regs.append((nm, off, k))
        off += k
    n = off
    if len(regs) > 1:
        case.see("qasm:registers")
    sp = lambda: r.choice(['', '', ' '])
    out = []

    def stmt(prim, operands):
        """A call of primitive gate prim; operands are texts."""
        nonlocal must
        k, nq, f = QASM[prim]
        angles = [angle(case, odd) for _ in range(k)]
        must = must and all(a[2] for a in angles)
        text = prim + ("(" + ("," + sp()).join(a[0] for a in angles) + ")" if k else "") + " " + ("," + sp()).join(operands)
        return text, f(*[a[1] for a in angles])
    custom = {}
    text_custom = []
    for nm in r.sample(['mygate', 'foo', 'maj', 'g1', 'xgate', 'bell', 'h2'], r.choice([0, 0, 1, 2])):
        args = r.sample(['a', 'b', 'c', 'q', 't0'], r.randrange(1, 4))
        body, ops = [], []
        for _ in range(r.randrange(0, 4)):
            cands = [x for x in custom if custom[x][0] <= len(args)]
            if cands and r.random() < .3:
                x = r.choice(cands)
                qs = r.sample(range(len(args)), custom[x][0])
                body.append(x + " " + ",".join(args[i] for i in qs))
                ops += [(m, [qs[i] for i in idx]) for m, idx in custom[x][1]]
                case.see("qasm:nested")
            else:
                prim = r.choice([p for p in QASM if QASM[p][1] <= len(args)])
                qs = r.sample(range(len(args)), QASM[prim][1])
                t, m = stmt(prim, [args[i] for i in qs])
                body.append(t)
                ops.append((m, qs))
        custom[nm] = (len(args), ops)
        nl = r.choice([" ", "\n"])
        text_custom.append("gate %s%s %s%s{%s%s}" % (nm, r.choice(['', '', '()']), ("," + sp()).join(args), r.choice([" ", "\n", ""]), nl, "".join(b + ";" + nl for b in body)))
    decl = []
    for nm, o, k in regs:
        decl.append("qubit[%d] %s;" % (k, nm) if v3 else "qreg %s[%d];" % (nm, k))
    bits = r.random() < .4
    if bits:
        decl.append("bit[%d] c;" % n if v3 else "creg c[%d];" % n)
    stm = []
    ops = []

    def one(i):
        nm, o, k = next(x for x in regs if x[1] <= i < x[1] + x[2])
        return "%s[%d]" % (nm, i - o)
    for _ in range(r.choice([0, 1, 3, 6]) if not big else r.choice([5, 10, 20])):
        x = r.random()
        cs = [y for y in custom if custom[y][0] <= n]
        use_custom = cs and r.random() < .35
        prim = r.choice(cs) if use_custom else r.choice([p for p in QASM if QASM[p][1] <= n])
        nq = custom[prim][0] if use_custom else QASM[prim][1]
        if x < .25:
            # broadcast over registers of one size
            nm, o, size = r.choice(regs)
            ok = [y for y in regs if y[2] == size]
            operands, cols = [], []
            used = set()
            for _ in range(nq):
                free = [y for y in ok if not used & set(range(y[1], y[1] + y[2]))]
                single = [i for i in range(n) if i not in used]
                if free and (r.random() < .6 or not cols):
                    y = r.choice(free)
                    operands.append(y[0])
                    cols.append(list(range(y[1], y[1] + size)))
                    used |= set(cols[-1])
                elif single:
                    i = r.choice(single)
                    operands.append(one(i))
                    cols.append([i] * size)
                    used.add(i)
            if len(cols) < nq:
                continue
            if not any('[' not in y for y in operands):
                cols = [[y[0]] for y in cols]
            else:
                case.see("qasm:broadcast")
            calls = list(zip(*cols))
        else:
            qs = r.sample(range(n), nq)
            operands, calls = [one(i) for i in qs], [tuple(qs)]
        if use_custom:
            case.see("qasm:custom")
            stm.append(prim + " " + ("," + sp()).join(operands))
            for cc in calls:
                ops += [(m, [cc[i] for i in idx]) for m, idx in custom[prim][1]]
        else:
            t, m = stmt(prim, operands)
            stm.append(t)
            ops += [(m, list(cc)) for cc in calls]
        if r.random() < .1:
            case.see("qasm:ignored")
            stm.append(r.choice(["barrier %s" % regs[0][0], "id %s" % one(0), "barrier %s" % one(0)]))
    if bits and r.random() < .5:
        case.see("qasm:ignored")
        i = r.randrange(n)
        stm.append("c[%d] = measure %s" % (i, one(i)) if v3 else r.choice(["measure %s -> c[%d]" % (one(i), i)]))
    if bad == 'gate':
        stm.append(r.choice(["foobar %s", "xx %s", "reset %s", "H %s", "cnot %s"]) % one(0))
    elif bad == 'index':
        nm, o, k = r.choice(regs)
        stm.append("x %s[%d]" % (nm, k + r.randrange(3)))
    elif bad == 'params':
        stm.append(r.choice(["rx %s", "x(0.5) %s", "u2(pi) %s", "u3(pi,pi) %s", "rz(pi,pi) %s", "h(pi) %s"]) % one(0))
    elif bad == 'qubits':
        stm.append(r.choice(["cx %s" % one(0), "ccx %s" % one(0), "swap %s" % one(0)] + (["x %s,%s" % (one(0), one(1)), "rx(pi) %s,%s" % (one(0), one(1)), "ccx %s,%s" % (one(0), one(1))] if n > 1 else []) + (["cz %s,%s,%s" % (one(0), one(1), one(2))] if n > 2 else [])))
    elif bad == 'sizes':
        y = [(a, b) for a in regs for b in regs if a[2] != b[2]]
        if not y:
            raise Skip("one register")
        a, b = r.choice(y)
        stm.append("cx %s,%s" % (a[0], b[0]))
    elif bad == 'register':
        stm.append(r.choice(["x nope[0]", "x nope", "cx nope,%s" % regs[0][0], "cx %s,nope[0]" % one(0)]))
    elif bad == 'repeated':
        stm.append(r.choice(["cx %s,%s", "cz %s,%s", "swap %s,%s"]) % (one(0), one(0)))
    elif bad == 'if':
        stm.append("if(c==1) x %s" % one(0))
    elif bad == 'opaque':
        stm.append("opaque magic a,b")
    elif bad == 'custom_params':
        text_custom.append("gate par(a) b { rx(a) b; }")
    elif bad == 'custom_repeated':
        text_custom.append("gate rep a,a { x a; }")
    elif bad == 'custom_qubits':
        text_custom.append("gate pairgate a,b { cx a,b; }")
        stm.append("pairgate %s" % one(0))
    head = ["OPENQASM 3;" if v3 and r.random() < .5 else "OPENQASM 3.0;" if v3 else "OPENQASM 2.0;", 'include "stdgates.inc";' if v3 else 'include "qelib1.inc";']
    strict = True
    if bad == 'header':
        head = r.choice([[], head[1:], ["OPENQASM 1.0;", head[1]], ["QASM 2.0;", head[1]]])
    elif bad == 'noinclude':
        head = r.choice([head[:1], [head[0], 'include "other.inc";']])
    elif not bad and r.random() < .2:
        strict = False
        if not v3:
            head = r.choice([[], head[:1], head])
        case.see("qasm:lenient")
    case.see("qasm:v3" if v3 else "qasm:v2")
    lines = list(head)
    if r.random() < .5:
        lines += text_custom + decl
    else:
        lines += decl + text_custom
    one_line = r.random() < .15
    for s in stm:
        if r.random() < .1:
            s = s.replace(",", ",\n  ", 1) if ' ' in s.split(',')[0] and '(' not in s else s
        lines.append(("  " if r.random() < .2 else "") + s + ";" + (r.choice([" // note; x q[0];", "// gate here", "  //"]) if r.random() < .1 and not one_line else ""))
        if '//' in lines[-1]:
            case.see("qasm:comment")
        if r.random() < .05 and not one_line:
            lines.append(r.choice(["// x q[0];", "", "//gate foo a { }", "   "]))
    if one_line and len(lines) > len(head):
        lines = lines[:len(head)] + [" ".join(lines[len(head):])]
    if r.random() < .05:
        lines = ["// a comment"] + lines
    return "\n".join(lines) + r.choice(["\n", ""]), run(ops, n), must, strict


PARSER = []


def k_qasm(case):
    r = case.rng
    if r.random() < .2:
        bad = r.choice(QBAD)
        text, _, _, _ = program(case, odd=False, bad=bad)
        try:
            d = Circuit.from_qasm(text)
        except Exception:
            case.see("bad:" + bad)
            return
        case.fail("bad:" + bad, "a program with a mistake (%s) was accepted as %s: %r" % (bad, gen.show_circ(d), text))
    big = r.random() < .04
    text, u, must, strict = program(case, big=big)
    if big and np.shape(u)[0] == 2 and np.ndim(u) > 2:
        case.see("wide:read_qasm")
    shared = r.random() < .3
    p = QASMParser()
    if shared:
        # a parser that has read other programs before
        for _ in range(r.randrange(1, 3)):
            other, _, m2, s2 = program(case, odd=False, bad=r.choice([None, None, 'gate', 'header', 'params']))
            try:
                p.parse(other, strict=s2)
            except Exception:
                pass
        case.see("qasm:sameparser")
    try:
        if shared:
            d = p.parse(text, strict=strict)
        elif strict:
            d = Circuit.from_qasm(text) if r.random() < .8 else load(case, 'qasm', text) if len(text) < 120 or 'QASM' in text[:100] else Circuit.from_qasm(text)
        else:
            d = zx.qasm(text)
    except TypeError as e:
        if must:
            case.fail("qasm:refused", "a valid program was refused (%s): %r" % (e, text))
        raise Skip("refused")
    same(case, "qasm:read", circ_map(d), u, text)
    if shared:
        case.check(p.qubit_count == d.qubits and p.circuit is d, "qasm:parser", "the parser reports another circuit")
        d2 = QASMParser().parse(text, strict=strict)
        case.check(mon.circ_snapshot(d) == mon.circ_snapshot(d2), "qasm:state", lambda: "a used parser reads %r as %s instead of %s" % (text, gen.show_circ(d), gen.show_circ(d2)))
        # gates of a circuit are its own
        for g in d.gates:
            if hasattr(g, 'target') and isinstance(g.target, int):
                g.target = -7
        d3 = p.parse(text, strict=strict)
        case.check(mon.circ_snapshot(d3) == mon.circ_snapshot(d2), "qasm:again", "reading the program again gives another circuit")
        case.see("qasm:reused")
    if len(d.gates) > 2 and not ref.close_up_to_phase(u, np.eye(len(u))):
        case.note('read qasm', text)
    case.sample(text)


def k_other(case):
    r = case.rng
    [other_qc, other_quipper, other_qsim, other_sqasm, other_load][r.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4])](case)


def other_qc(case):
    r = case.rng
    n = r.randrange(1, 6)
    big = r.random() < .35
    if big:
        n = r.randrange(4, 8)
    many = r.random() < .03
    if many:
        n, big = r.randrange(10, 14), False
        case.see("wide:read_qc")
    labels = r.sample(['a', 'b', 'c0', 'q1', 'q2', '1', '2', 'x', 'T', 'carry', 'H'] + (['q10', 'q11', '10', '11', 'q', 'q0'] if many else []), n)
    sep = r.choice([' ', ',', ', '])
    lines = [r.choice(['.v ', '.v  ']) + sep.join(labels), '.i ' + sep.join(labels[:n // 2 + 1])]
    if r.random() < .5:
        lines.append('.o ' + sep.join(labels))
    if r.random() < .3:
        lines.insert(r.randrange(2), "# header")
        case.see("qc:comment")
    ops = []
    body = []
    anc = 0
    for _ in range(r.choice([0, 1, 3, 6]) + 12 * many):
        q = r.sample(range(n), min(n, r.choice([1, 1, 2, 2, 3])))
        if big and r.random() < .5:
            q = r.sample(range(n), r.randrange(4, n + 1))
        if len(q) == 1:
            g, m = r.choice([('tof', X), ('t1', X), ('not', X), ('X', X), ('x', X), ('Z', Z), ('z', Z), ('S', gref.P(math.pi / 2)), ('P', gref.P(math.pi / 2)), ('S*', gref.P(-math.pi / 2)), ('P*', gref.P(-math.pi / 2)), ('T', gref.P(math.pi / 4)), ('T*', gref.P(-math.pi / 4)), ('H', H), ('h', H)])
        elif len(q) == 2:
            g, m = r.choice([('cnot', c(X)), ('tof', c(X)), ('t2', c(X)), ('T2', c(X)), ('cz', c(Z)), ('Z', c(Z)), ('swap', gref.SWAPM)])
            if g == 'swap':
                case.see("qc:swap")
        elif len(q) == 3:
            g, m = r.choice([('t3', c(c(X))), ('tof', c(c(X))), ('Tof', c(c(X))), ('ccz', c(c(Z))), ('Z', c(c(Z)))])
        else:
            g, m = r.choice(['tof', 't%d' % len(q), 'Tof']), X
            for _ in q[1:]:
                m = c(m)
            anc = max(anc, len(q) - 3)
            case.see("qc:ancilla%d" % len(q)) if len(q) < 7 else None
        ops.append((m, q))
        body.append(r.choice(['', '  ']) + g + ' ' + r.choice([' ', ',', ', ', '  ']).join(labels[i] for i in q) + r.choice(['', ' ']))
        if r.random() < .1:
            body.append(r.choice(['', '# comment', '   ']))
    bad = r.random() < .1
    if bad:
        body.insert(r.randrange(len(body) + 1), r.choice(["foo " + labels[0], "H nolabel", "H"] + (["H %s %s" % (labels[0], labels[1])] if n > 1 else []) + (["T %s %s %s" % tuple(labels[:3])] if n > 2 else []) + (["Z " + " ".join(labels[:4])] if n > 3 else [])))
    text = "\n".join(lines + [''] * 0 + ['', 'BEGIN'] + body + ['END', ''])
    if not any(labels):
        raise Skip("none")
    try:
        d = Circuit.from_qc(text) if r.random() < .8 or '#' in text[:30] else load(case, 'qc', text)
    except Exception:
        if bad:
            case.see("qc:bad")
            return
        raise
    case.check(not bad, "qc:accepted", lambda: "a description with a mistake was accepted: %r" % text)
    need = 0
    case.check(d.qubits >= n, "qc:size", lambda: "%d qubits for %d labels: %r" % (d.qubits, n, text))
    if d.qubits == n:
        same(case, "qc:read", circ_map(d), run(ops, n), text)
    else:
        # extra qubits start in 0 and end in 0
        case.check(d.qubits - n <= 4 and anc, "qc:size", lambda: "%d qubits for %d labels: %r" % (d.qubits, n, text))
        k = d.qubits - n
        t = np.zeros((2,) * d.qubits + (2 ** n,), dtype=complex)
        t[(Ellipsis,) + (0,) * k + (slice(None),)] = np.eye(2 ** n).reshape((2,) * n + (2 ** n,))
        for g in d.gates:
            m, qs = gref.gate_matrix(g)
            t = gref.apply(t, m, qs)
        w = t[(Ellipsis,) + (0,) * k + (slice(None),)].reshape(2 ** n, 2 ** n)
        same(case, "qc:ancilla", w, run(ops, n), text)
    case.see("qc:labels")
    if len(ops) > 2:
        case.note('read qc', text)


def other_quipper(case):
    r = case.rng
    n = r.randrange(1, 6)
    many = r.random() < .03
    if many:
        n = r.randrange(10, 14)
        case.see("wide:read_quipper")
    frac = True
    lines = []
    init = r.random() < .2
    if init:
        lines.append("Inputs: none")
        lines += ["QInit0(%d)" % i for i in range(n)]
        case.see("quipper:init")
    else:
        lines.append("Inputs: " + ", ".join("%d:Qbit" % i for i in range(n)))
    ops = []
    for _ in range(r.choice([0, 1, 3, 6]) + 12 * many):
        x = r.random()
        end = r.choice(['', ' with nocontrol'])
        if x < .15:
            t = r.uniform(-7, 7)
            if r.random() < .6:
                t = float(Fraction(r.randrange(-40, 41), r.choice([1, 2, 3, 4, 8, 16]))) * math.pi / 2
            else:
                frac = False
            a = r.choice('XYZ')
            q = r.randrange(n)
            ops.append((gref.rot(a.lower(), 2 * t), [q]))
            lines.append('QRot["exp(-i%%%s)",%r](%d)' % (a, t, q))
            case.see("quipper:rotation")
        elif x < .5:
            g, m = r.choice([('not', X), ('H', H), ('Z', Z), ('S', gref.P(math.pi / 2)), ('T', gref.P(math.pi / 4))])
            q = r.randrange(n)
            adj = r.random() < .3
            if adj:
                case.see("quipper:adjoint")
            ops.append((m.conj().T if adj else m, [q]))
            lines.append('QGate["%s"]%s(%d)%s' % (g, '*' if adj else '', q, end))
        else:
            k = min(n, r.choice([2, 3]))
            if k == 1:
                continue
            q = r.sample(range(n), k)
            g, m = r.choice([('not', X), ('Z', Z)])
            sg = [True] * (k - 1) if k == 2 else [r.random() < .7 for _ in range(k - 1)]
            for s, i in zip(sg, q):
                if not s:
                    ops.append((X, [i]))
                    case.see("quipper:negative")
            for _ in sg:
                m = c(m)
            ops.append((m, q))
            for s, i in zip(sg, q):
                if not s:
                    ops.append((X, [i]))
            lines.append('QGate["%s"](%d) with controls=[%s]%s' % (g, q[-1], r.choice([',', ', ']).join(('+' if s else '-') + str(i) for s, i in zip(sg, q)), end))
        if r.random() < .1:
            lines.append('Comment["ENTER: box"]()')
            case.see("quipper:comment")
    bad = r.random() < .1
    if bad:
        lines.append(r.choice(['QGate["W"](0) with nocontrol', 'QRot["exp(-i%W)",0.5](0)', 'QInit1(0)', 'QGate["H"](0) with controls=[+1] with nocontrol', 'hello', 'QGate["not"](0) with controls=[+1,+2,+3] with nocontrol', 'QGate["H"](0) with controls=[+1,+2] with nocontrol', 'QRot["exp(-i%Z)",abc](0)']))
    if init and r.random() < .5:
        lines.append("QTerm0(0)")
    lines.append("Outputs: " + ", ".join("%d:Qbit" % i for i in range(n)))
    text = "\n".join(lines)
    block = r.random() < .15
    if block:
        # files with subroutines (PF benchmarks): the repeated centre "C" between "L" and "R", or the only one, "S", is read
        head = ['Shape: "([Q])"', 'Controllable: yes']
        other = [lines[0], 'QGate["H"](0) with nocontrol', lines[-1]]
        if r.random() < .6:
            text = "\n".join([lines[0]] + ['Subroutine(x%d)["%s", shape "([Q])"] (0) -> (0)' % (r.randrange(1, 50), x) for x in 'LCR'] + [lines[-1], ' ', 'Subroutine: "L"'] + head + other
                             + ['', 'Subroutine: "C"'] + head + [text, r.choice(['', ' ', '\n']), 'Subroutine: "R"'] + head + other)
        else:
            text = "\n".join([lines[0], 'Subroutine(x1)["S", shape "([Q])"] (0) -> (0)', lines[-1], '', 'Subroutine: "S"'] + head + [text, r.choice(['', '\n'])])
        case.see("quipper:subroutine")
    try:
        d = load(case, 'quipper', text) if block or r.random() < .2 else Circuit.from_quipper(text)
    except Exception:
        if bad:
            case.see("quipper:bad")
            return
        raise
    case.check(not bad, "quipper:accepted", lambda: "a description with a mistake was accepted: %r" % text)
    same(case, "quipper:read", circ_map(d), run(ops, n), text)
    if frac:
        exact(case, "quipper:exact", d, 16, text)
    if len(ops) > 2:
        case.note('read quipper', text)


def other_qsim(case):
    r = case.rng
    n = r.randrange(2, 5)
    many = r.random() < .05
    if many:
        n = r.randrange(10, 14)
        case.see("wide:qsim")
    frac = True
    lines = [str(n)]
    ops = []
    is2 = 1 / math.sqrt(2)
    for t in range(r.choice([0, 1, 3, 6]) + 12 * many):
        g = r.choice(['rz', 'hz_1_2', 'x_1_2', 'y_1_2', 'fs'])
        case.see("qsim:" + g)
        q = r.sample(range(n), 2)
        if g == 'rz':
            a = r.uniform(-7, 7)
            if r.random() < .6:
                a = float(Fraction(r.randrange(-40, 41), r.choice([1, 2, 3, 4, 8, 16]))) * math.pi
            else:
                frac = False
            ops.append((gref.rot('z', a), q[:1]))
            lines.append("%d rz %d %r" % (t, q[0], a))
        elif g == 'fs':
            a = r.choice([-1, 1]) * math.pi / 2
            b = r.choice([math.pi / 6, r.uniform(-7, 7)])
            frac = frac and b == math.pi / 6
            ops.append((gref.fsim(a, b), q))
            lines.append("%d fs %d %d %r %r" % (t, q[0], q[1], a, b))
        else:
            m = {'hz_1_2': np.array([[.5 + .5j, -1j * is2], [is2, .5 + .5j]]), 'x_1_2': gref.rot('x', math.pi / 2), 'y_1_2': gref.rot('y', math.pi / 2)}[g]
            ops.append((m, q[:1]))
            lines.append("%d %s %d" % (t, g, q[0]))
        if r.random() < .1:
            lines.append("")
    bad = r.random() < .15
    if bad:
        if r.random() < .3:
            lines[0] = 'start'
        else:
            lines.append(r.choice(["9 foo 0", "9 bar 0 1", "9 rz zero 1.0"]))
    text = "\n".join(lines) + "\n"
    try:
        d = load(case, 'qsim', text)
    except Exception:
        if bad:
            case.see("qsim:bad")
            return
        raise
    case.check(not bad, "qsim:accepted", lambda: "a description with a mistake was accepted: %r" % text)
    same(case, "qsim:read", circ_map(d), run(ops, n), text)
    if frac:
        exact(case, "qsim:exact", d, 16, text)
    if len(ops) > 2:
        case.note('read qsim', text)


def other_sqasm(case):
    """Registers A* are prepared, Z* projected, other capitals both, in the state of the colour of the neighbour."""
    r = case.rng
    text, u, must, _ = program(case, odd=False)
    text = re.sub(r"(?m)^(gate .*)$", r"\1", text)
    names = re.findall(r"(?:qreg|qubit\[\d+\]) (\w+)", text)
    low = r.random() < .4
    mapping = {}
    if not low:
        for nm in names:
            mapping[nm] = r.choice(['A', 'Z', 'B', '', '']) + nm
    for a, b in mapping.items():
        text = re.sub(r"(?<![\w])%s(?=[\[,;\s]|$)" % a, b, text)
    if 'gate ' in text and not low:
        raise Skip("custom gate arguments renamed")
    g = sqasm(text, simplify=False)
    try:
        h = sqasm(text, simplify=True)
    except ValueError as e:
        if 'unreducible' in str(e):
            raise Skip("unreducible parallel edge")
        raise
    regs = {}
    off = 0
    for nm, k in [(m.group(1) or m.group(4), int(m.group(2) or m.group(3))) for m in re.finditer(r"qreg (\w+)\[(\d+)\]|qubit\[(\d+)\] (\w+)", text)]:
        regs[nm] = (off, k)
        off += k
    ins = [q for nm, (o, k) in regs.items() for q in range(o, o + k) if not nm[0].isupper() or nm[0] == 'Z']
    outs = [q for nm, (o, k) in regs.items() for q in range(o, o + k) if not nm[0].isupper() or nm[0] == 'A']
    case.check(g.num_inputs() == len(ins) and g.num_outputs() == len(outs), "sqasm:arity", lambda: "%d inputs and %d outputs: %r" % (g.num_inputs(), g.num_outputs(), text))
    a, b = ref.matrix(g), ref.matrix(h)
    case.check(ref.close(b, a, atol=1e-6), "sqasm:simplified", lambda: "simplified diagram is another (%s): %r" % (ref.describe(b, a), text))
    case.see("sqasm:simplified")
    if not any(x[0].isupper() for x in regs):
        case.check(ref.close_up_to_phase(a, u), "sqasm:plain", lambda: "another circuit (%s): %r" % (ref.describe(a, u), text))
        case.see("sqasm:plain")
        case.note('sqasm', text)
        return
    for x in regs:
        if x[0].isupper():
            case.see("sqasm:" + (x[0] if x[0] in 'AZ' else 'both'))
    # some choice of |0> or |+> per capital qubit and end gives the diagram
    n = off
    prep = [q for q in range(n) if q not in ins]
    proj = [q for q in range(n) if q not in outs]
    if len(prep) + len(proj) > 7:
        raise Skip("many choices")
    t = u.reshape((2,) * (2 * n))
    st = [np.array([1, 0]), np.array([1, 1]) / math.sqrt(2)]
    found = False
    for code in range(2 ** (len(prep) + len(proj))):
        x = t
        bits = [(code >> i) & 1 for i in range(len(prep) + len(proj))]
        axes = sorted([(n + q, bits[i]) for i, q in enumerate(prep)] + [(q, bits[len(prep) + i]) for i, q in enumerate(proj)], reverse=True)
        for ax, bb in axes:
            x = np.tensordot(x, st[bb], axes=([ax], [0]))
        x = x.reshape(a.shape)
        if np.abs(x).max() < 1e-9 and np.abs(a).max() < 1e-9 or ref.close_up_to_phase(a, x):
            found = True
            break
    case.check(found, "sqasm:ends", lambda: "the diagram is not the circuit with basis states plugged in: %r" % text)
    case.note('sqasm', text)


def other_load(case):
    r = case.rng
    with scratch() as d:
        if r.random() < .5:
            fn = os.path.join(d, "x.qgraph")
            open(fn, 'w').write("{}")
            what = 'qgraph'
        else:
            fn = os.path.join(d, r.choice(["x", "x.txt"]))
            open(fn, 'w').write(r.choice(["hello", "", "1 2 3", "BEGIN\nEND"]))
            what = 'unknown'
        try:
            Circuit.load(fn)
        except TypeError:
            case.see("load:" + what)
        else:
            case.fail("load:" + what, "a file that is not a circuit was loaded")


KINDS = {'write': (k_write, 18000, 250000), 'qasm': (k_qasm, 18000, 250000), 'other': (k_other, 14000, 200000)}
