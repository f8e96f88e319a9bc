"""P26: the command line tools."""
import contextlib
import io
import os
import subprocess
import sys
import tempfile
from collections import Counter
import numpy as np
from .. import gen, gref, ref, wide
from ..run import Skip
from . import p13, p14, p18
import pyzx as zx
from pyzx import scripts
from pyzx.scripts import circ2circ, circ2tikz, cnot_generator, phase_poly_generator, circuit_router
from pyzx.circuit import Circuit
from pyzx.routing import ElimMode
from pyzx.routing.parity_maps import CNOT_tracker

RULE = "circuit files in all formats x all options of the commands, run in the process and as python -m pyzx; non-trivial when the source has at least 3 gates; distinct by (command line, source text)"
ASSUMPTIONS = ["circuits are compared up to a global phase", "files are written to a scratch directory; a phase that the output language cannot express may be refused, then no file is written",
               "the router command is a known finding and is otherwise not exercised; its function map_cnot_circuit is"]
NEED = ["opt:" + s for s in ('full', 'cliff', 'tele', 'default', 'phasepoly', 'verbose', 'dest', 'match', 'to:qasm', 'to:qc', 'to:quipper', 'from:qasm', 'from:qc', 'from:quipper', 'from:tfc', 'overwrite', 'missing', 'format', 'refused', 'large')] + [
    "tikz:dest", "tikz:default", "tikz:help", "tikz:missing", "cnots", "cnots:several", "phasepoly", "map", "map:steiner", "map:gauss", "dispatch:opt", "dispatch:tikz", "dispatch:cnots", "dispatch:unknown", "dispatch:none", "module"]


def strip(t):
    """CNOT trackers put their wiring in comment lines above the header."""
    ls = t.splitlines(True)
    while ls and ls[0].startswith('//'):
        ls.pop(0)
    return ''.join(ls)


READ = {'qasm': lambda t: p18.read_qasm(strip(t), 2), 'qc': p18.read_qc, 'quipper': p18.read_quipper}


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix="vt-p26-") as d:
        yield d


def quiet(f, *a):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            f(*a)
            code = 0
        except SystemExit as e:
            code = e.code
    return code, out.getvalue(), err.getvalue()


def listing(d):
    res = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as h:
                res[os.path.relpath(os.path.join(p, f), d)] = h.read()
    return res


def source(case, d, wild=True):
    """A circuit file and the map it describes."""
    r = case.rng
    lang = r.choice(['qasm', 'qasm', 'qc', 'quipper'])
    large = r.random() < .05
    mode = 'cliffordT' if lang == 'qc' or not wild or large else r.choice(['cliffordT', 'cliffordT', 'clifford', 'wild', 'mix'])
    if large:
        case.see("opt:large")
    c = gen.circuit(r, r.randrange(8, 13) if large else r.randrange(1, 5), r.choice([10, 20, 30]) if large else r.choice([0, 1, 3, 6, 10, 16]), names=gen.BASIC if r.random() < .7 else ['ZPhase', 'Z', 'NOT', 'S', 'T', 'HAD', 'CNOT', 'CZ', 'CCZ', 'Tof', 'SWAP'], mode=mode)
    c.name = 'c'
    text = {'qasm': c.to_qasm, 'qc': c.to_qc, 'quipper': c.to_quipper}[lang]()
    ext = r.choice({'qasm': ['.qasm'], 'qc': ['.qc', '.qc', '.tfc'], 'quipper': ['.quipper', '.quip']}[lang])
    fn = os.path.join(d, r.choice(['circ', 'my circuit', 'a.b']) + ext)
    with open(fn, 'w') as f:
        f.write(text)
    if len(c.gates) >= 3:
        case.note(lang, text)
    return lang, ext, fn, text, READ[lang](text), c


def call(case, command, argv):
    """Through the command's main, or through the dispatcher."""
    if case.rng.random() < .3:
        case.see("dispatch:" + command)
        return quiet(scripts.main, ['pyzx', command] + argv)
    return quiet({'opt': circ2circ, 'tikz': circ2tikz, 'cnots': cnot_generator}[command].main, argv)


def k_opt(case):
    r = case.rng
    with scratch() as d:
        pp = r.random() < .25
        lang, ext, fn, text, u, c = source(case, d, wild=not pp)
        case.see("opt:from:" + ('tfc' if ext == '.tfc' else lang))
        argv, out = [], lang
        x = r.random()
        if x < .08:
            bad = r.choice(['missing', 'format'])
            before = listing(d)
            a = [fn + 'x'] if bad == 'missing' else [fn, '-t', r.choice(['qsim', 'tikz', 'QASM', ''])]
            code, o, e = call(case, 'opt', a)
            case.check(listing(d) == before and o.strip(), "opt:" + bad, lambda: "opt %s: files %s, printed %r" % (a, sorted(listing(d)), o))
            case.see("opt:" + bad)
            return
        if r.random() < .6:
            out = r.choice(['qasm', 'qc', 'quipper'])
            argv += ['-t', out]
        else:
            if r.random() < .3:
                argv += ['-t', 'match']
            case.see("opt:match")
        if r.random() < .7:
            s = r.choice(['full', 'cliff', 'tele'])
            argv += ['-g', s]
            case.see("opt:" + s)
        else:
            case.see("opt:default")
        if pp:
            argv.append('-p')
            case.see("opt:phasepoly")
        if r.random() < .3:
            argv.append('-v')
            case.see("opt:verbose")
        dest = os.path.splitext(fn)[0] + '.' + out
        if r.random() < .5:
            dest = os.path.join(d, r.choice(['out', 'out.txt', 'o.qasm', 'result.qc']))
            argv += ['-d', dest]
            case.see("opt:dest")
        elif dest == fn:
            case.see("opt:overwrite")
        if os.path.basename(dest) not in os.listdir(d) and r.random() < .2:
            with open(dest, 'w') as f:
                f.write("old contents that are longer than what is going to be written\n" * 200)
        argv.insert(r.choice([0, len(argv)]), fn)
        before = listing(d)
        what = lambda: "opt %s of %r" % ([os.path.basename(a) for a in argv], text)
        try:
            code, o, e = call(case, 'opt', argv)
        except TypeError as ex:
            if out == 'qc' and 'description' in str(ex) and any(getattr(g, 'phase', 0) % 2 * 4 % 1 for g in c.to_basic_gates().gates):
                case.check(listing(d) == before, "opt:refused", lambda: "%s was refused but changed the files" % what())
                case.see("opt:refused")
                return
            raise
        case.check(not code, "opt:exit", lambda: "%s ended with %s: %s" % (what(), code, e))
        after = listing(d)
        name = os.path.basename(dest)
        case.check({k for k in after if after[k] != before.get(k)} <= {name} and set(after) == set(before) | {name}, "opt:files", lambda: "%s changed the files %s, wrote %s" % (what(), sorted(k for k in after if after[k] != before.get(k)), name))
        case.check(os.path.abspath(dest) in o, "opt:message", lambda: "%s printed %r" % (what(), o))
        res = after[name].decode()
        try:
            w = READ[out](res)
        except (ValueError, KeyError, IndexError) as ex:
            case.fail("opt:language", "%s wrote %r, which is not %s (%s)" % (what(), res, out, ex))
        case.check(w.shape == u.shape, "opt:size", lambda: "%s wrote a circuit of another size: %r" % (what(), res))
        case.check(ref.close_up_to_phase(u, w, tol=2e-6), "opt:map", lambda: "%s wrote another circuit (%s): %r" % (what(), ref.describe(u, w), res))
        case.see("opt:to:" + out)
        case.sample("opt %s: %s" % (" ".join(os.path.basename(a) for a in argv), text[:200]))


def k_tikz(case):
    r = case.rng
    with scratch() as d:
        if r.random() < .05:
            before = listing(d)
            a = r.choice([[], [os.path.join(d, 'nothing.qasm')]])
            code, o, e = call(case, 'tikz', a)
            case.check(listing(d) == before and o.strip() and not code, "tikz:nothing", lambda: "tikz %s printed %r" % (a, o))
            case.see("tikz:missing" if a else "tikz:help")
            return
        lang, ext, fn, text, u, c = source(case, d)
        argv = [fn]
        dest = os.path.splitext(fn)[0] + '.tikz'
        if r.random() < .5:
            dest = os.path.join(d, r.choice(['x.tikz', 'pic', 'pic.tex']))
            argv.append(dest)
            case.see("tikz:dest")
        else:
            case.see("tikz:default")
        before = listing(d)
        code, o, e = call(case, 'tikz', argv)
        after = listing(d)
        name = os.path.basename(dest)
        case.check(not code and set(after) == set(before) | {name} and all(after[k] == before[k] for k in before), "tikz:files", lambda: "tikz %s: %s" % (argv, sorted(after)))
        g = zx.Graph.from_tikz(after[name].decode(), warn_overlap=False)
        g.auto_detect_io()
        n = c.qubits
        v = ref.matrix(g) if n <= 7 else wide.probe(g, p18.probes(n), [None] * n) if len(g.inputs()) == len(g.outputs()) == n else np.zeros(0)
        case.check(v.shape == u.shape and ref.close_up_to_scalar(v, u, tol=2e-6 if all(getattr(x, 'phase', 0) % 2 * 256 % 1 == 0 for x in c.gates) else .1)[0], "tikz:map", lambda: "the picture of %r shows another map: %s" % (text, after[name].decode()[:1500]))


def k_random(case):
    """The generators of circuit files."""
    r = case.rng
    with scratch() as d:
        folder = os.path.join(d, r.choice(['out', 'a/b']))
        which = r.choice(['cnots', 'cnots', 'phasepoly'])
        if which == 'cnots':
            qs = r.sample(range(2, 7), r.choice([1, 1, 2]))
            ns = r.sample(range(0, 12), r.choice([1, 1, 3]))
            m = r.choice([1, 1, 2, 3])
            argv = [folder, r.choice(['-q', '--n_qubits'])] + [str(q) for q in qs] + [r.choice(['-d', '--n_cnots'])] + [str(n) for n in ns]
            if m > 1 or r.random() < .3:
                argv += [r.choice(['-m', '--n_maps']), str(m)]
            code, o, e = call(case, 'cnots', argv)
            case.see("cnots")
            if len(qs) * len(ns) * m > 2:
                case.see("cnots:several")
            sub = {(q, n): os.path.join("%dqubits" % q, str(n)) for q in qs for n in ns}
        else:
            qs = r.sample(range(2, 5), r.choice([1, 1, 2]))
            ns = r.sample(range(0, 4), r.choice([1, 2]))
            m = r.choice([1, 1, 2])
            argv = [folder, '-q'] + [str(q) for q in qs] + ['-p'] + [str(n) for n in ns] + ['-m', str(m)]
            # the parser of this command is extended by every call: run it in a child process
            pid = os.fork()
            if pid == 0:
                try:
                    res = quiet(phase_poly_generator.main, argv)
                    os._exit(0 if res[0] == 0 else 3)
                finally:
                    os._exit(4)
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            o = e = ''
            case.see("phasepoly")
            sub = {(q, n): os.path.join("%dqubits" % q, "%dgadgets" % n) for q in qs for n in ns}
        what = lambda: "%s %s (%s %s)" % (which, argv, code, (o + e)[-300:])
        case.check(code == 0, which + ":exit", what)
        files = {os.path.relpath(os.path.join(folder, k), folder): v for k, v in listing(folder).items()} if os.path.isdir(folder) else {}
        want = {os.path.join(s, "Original%d.qasm" % i) for s in sub.values() for i in range(m)}
        case.check(set(files) == want, which + ":files", lambda: "%s wrote %s, expected %s" % (what(), sorted(files), sorted(want)))
        for (q, n), s in sub.items():
            for i in range(m):
                text = files[os.path.join(s, "Original%d.qasm" % i)].decode()
                u = READ['qasm'](text)
                c = Circuit.from_qasm(text)
                case.check(u.shape == (2 ** q, 2 ** q), which + ":qubits", lambda: "%s: %r" % (what(), text))
                if which == 'cnots':
                    case.check(Counter(x.name for x in c.gates) == Counter({'CNOT': n} if n else {}), "cnots:gates", lambda: "%s: %r" % (what(), text))
                else:
                    w, o2 = p14.poly(c)
                    case.check(len(w) == n and o2 == [1 << j for j in range(q)], "phasepoly:gadgets", lambda: "%s: %r" % (what(), text))
                case.note(which, text)


def k_map(case):
    """A file of CNOTs mapped to an architecture."""
    r = case.rng
    n = r.choice([2, 3, 4, 4, 5, 6])
    a = p13.rand_arch(r, n)
    c = gen.circuit(r, n, r.choice([0, 2, 5, 10, 20]), names=['CNOT'])
    with scratch() as d:
        fn, dest = os.path.join(d, 'c.qasm'), os.path.join(d, 'o.qasm')
        with open(fn, 'w') as f:
            f.write(c.to_qasm())
        mode = r.choice([ElimMode.STEINER_MODE, ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE])
        use = r.random() < .7
        (res,), _ = p13.quiet(lambda: (circuit_router.map_cnot_circuit(fn, a, mode=mode, dest_file=dest if use else None),))
        what = lambda: "%s mapped to %s by %s is %s" % (gen.show_circ(c), sorted(map(sorted, p13.links(a))), mode, gen.show_circ(res))
        case.check(all(x.name == 'CNOT' for x in res.gates), "map:gates", what)
        u, v = gref.circ(c), gref.circ(res)
        case.check(np.array_equal(np.round(u.real), np.round(v.real)), "map:map", what)
        if mode == ElimMode.STEINER_MODE:
            es = p13.links(a)
            case.check(all(frozenset((x.control, x.target)) in es for x in res.gates), "map:coupling", what)
            case.see("map:steiner")
        else:
            case.see("map:gauss")
        if use:
            with open(dest) as f:
                text = f.read()
            case.check(np.allclose(READ['qasm'](text), v), "map:file", lambda: "%s but the file contains %r" % (what(), text))
        case.see("map")
        case.note("map", what())


def k_module(case):
    """python -m pyzx in a process of its own."""
    r = case.rng
    repo = os.environ.get("VT_REPO", "/repo")
    with scratch() as d:
        lang, ext, fn, text, u, c = source(case, d, wild=False)
        which = r.choice(['opt', 'opt', 'tikz', 'cnots', 'phasepoly', 'unknown', 'none'])
        argv = {'opt': ['opt', fn, '-t', 'qasm', '-d', 'o.qasm'], 'tikz': ['tikz', fn, 'o.tikz'], 'cnots': ['cnots', 'o', '-q', '3', '-d', '4'], 'phasepoly': ['phasepoly', 'o', '-q', '3', '-p', '2'],
                'unknown': ['frobnicate', fn], 'none': []}[which]
        before = listing(d)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'pyzx'] + argv, cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=repo), timeout=120)
        after = listing(d)
        new = sorted(set(after) - set(before))
        what = lambda: "python -m pyzx %s ended with %s: %s" % (argv, p.returncode, (p.stdout + p.stderr)[-600:])
        case.check(all(after.get(k) == v for k, v in before.items()), "module:changed", what)
        if which in ('unknown', 'none'):
            case.check(p.returncode == 1 and not new and 'Traceback' not in p.stderr, "module:" + which, what)
            case.see("dispatch:" + which)
        else:
            case.check(p.returncode == 0, "module:exit", what)
            want = {'opt': ['o.qasm'], 'tikz': ['o.tikz'], 'cnots': ['o/3qubits/4/Original0.qasm'], 'phasepoly': ['o/3qubits/2gadgets/Original0.qasm']}[which]
            case.check(new == want, "module:files", lambda: "%s wrote %s" % (what(), new))
            if which == 'opt':
                w = READ['qasm'](after['o.qasm'].decode())
                case.check(w.shape == u.shape and ref.close_up_to_phase(u, w, tol=2e-6), "module:map", lambda: "%s wrote another circuit for %r" % (what(), text))
        case.see("module")
        case.note("module", which, text)


def k_router(case):
    """The router command (a known finding: it does not run at all)."""
    r = case.rng
    with scratch() as d:
        fn = os.path.join(d, 'c.qasm')
        c = gen.circuit(r, 4, 8, names=['CNOT'])
        with open(fn, 'w') as f:
            f.write(c.to_qasm())
        try:
            code, o, e = quiet(circuit_router.main, [fn, '-a', 'square', '-q', '4'])
        except Exception as ex:
            case.fail("router:does-not-run", "python -m pyzx router stops with %s: %s" % (type(ex).__name__, ex))
        case.see("router")


KINDS = {'opt': (k_opt, 4000, 120000), 'tikz': (k_tikz, 1500, 40000), 'random': (k_random, 800, 20000), 'map': (k_map, 1500, 40000), 'module': (k_module, 32, 400), 'router': (k_router, 1, 1)}
