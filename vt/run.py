"""Runner: executes a property's workload in parallel worker processes under its monitors, collects
the observed-event counters, classifies violations against the committed known findings, writes the
evidence file.

Verdicts: exit 0 held on everything explored; exit 1 + VIOLATION line; exit 3 inconclusive (a
monitor was never reached, a worker died)."""
import argparse, hashlib, importlib, json, os, pickle, random, re, signal, sys, time, traceback, gc
from collections import Counter

sys.modules.setdefault("vt.run", sys.modules[__name__])   # also when started with -m: one Skip class, one Violation class
HERE = os.environ.get("VT_HERE", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VT_REPO", "/repo")
NPROC = int(os.environ.get("VT_NPROC", "8"))
EVID = os.environ.get("VT_EVIDENCE", os.path.join(HERE, "evidence"))


class Violation(Exception):
    def __init__(self, mech, msg, data=None):
        super().__init__(msg)
        self.mech, self.msg, self.data = mech, msg, data


class Skip(Exception):
    """The case is outside the domain of the property (precondition not met)."""


class Watchdog(BaseException):
    pass


class Case:
    def __init__(self, prop, kind, idx, seed, tier, obs):
        self.prop, self.kind, self.idx, self.seed, self.tier, self.obs = prop, kind, idx, seed, tier, obs
        self.rng = random.Random("%s/%s/%s/%s" % (prop, kind, idx, seed))
        self.sigs = []
        self.samples = []
        self.soft = []   # violations recorded without aborting the case

    def see(self, name, n=1):
        self.obs[name] += n

    def note(self, *what):
        """Record a distinct non-trivial case by its canonical description."""
        self.sigs.append(hashlib.md5(repr(what).encode()).hexdigest()[:16])

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def fail(self, mech, msg, data=None):
        raise Violation(mech, msg, data)

    def report(self, mech, msg, data=None):
        if len(self.soft) < 20:
            self.soft.append((mech, msg, data))

    def check(self, cond, mech, msg="", data=None):
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg, data)


def crash_site(tb):
    """'module:function' of the innermost frame inside the repository, if any."""
    site = None
    for fs in traceback.extract_tb(tb):
        if os.path.abspath(fs.filename).startswith(REPO + "/"):
            site = os.path.relpath(fs.filename, REPO)[:-3].replace("/", ".") + ":" + fs.name
    return site


def run_case(mod, case):
    """Returns list of (mech, msg, data). An exception that comes out of the repository code, in a
    workload the property declares to be inside the domain, is a violation (crash)."""
    fn = mod.KINDS[case.kind][0]
    out = []
    np_state = None
    try:
        random.seed(case.rng.randrange(2 ** 32))
        import numpy
        numpy.random.seed(case.rng.randrange(2 ** 32))
        fn(case)
        case.see("cases_run")
    except Skip:
        case.see("cases_outside_domain")
    except Violation as v:
        out.append((v.mech, v.msg, v.data))
    except Watchdog:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        from . import ref
        if isinstance(e, ref.TooBig):
            case.see("cases_oracle_too_big")
            return case.soft
        site = crash_site(e.__traceback__)
        tbtxt = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if isinstance(e, ref.BadDiagram):
            out.append(("malformed-diagram:" + case.kind, "the implementation returned a malformed diagram: %s" % e, None))
        elif site is None and isinstance(e, (ValueError, IndexError, KeyError, ZeroDivisionError, TypeError)) \
                and not (isinstance(e, TypeError) and "argument" in str(e)):
            # The oracle could not interpret what the implementation returned (never happens on
            # well-formed results); a changed call signature of a helper stays a harness error.
            out.append(("malformed-result:%s:%s" % (case.kind, type(e).__name__), "the result could not be interpreted: %s: %s" % (type(e).__name__, str(e)[:200]), tbtxt))
        elif site is None:
            case.see("HARNESS_ERROR")
            if case.obs["HARNESS_ERROR"] <= 2:
                sys.stderr.write("harness error in %s/%s/%s: %s\n" % (case.prop, case.kind, case.idx, tbtxt))
        else:
            out.append(("crash:%s:%s:%s" % (case.kind, type(e).__name__, site), "%s: %s" % (type(e).__name__, str(e)[:300]), tbtxt))
    return case.soft + out


class StepLimit(BaseException):
    pass


def step_limited(mod, case, limit):
    """Re-run a case that exhausted its CPU watchdog counting logical steps (loop back-edges and
    function entries); True if it exceeded ``limit`` steps."""
    mon = sys.monitoring
    tid = mon.DEBUGGER_ID
    n = [0]

    def tick(*a):
        n[0] += 1
        if n[0] > limit:
            raise StepLimit()
    mon.use_tool_id(tid, "vt")
    mon.register_callback(tid, mon.events.PY_START, tick)
    mon.register_callback(tid, mon.events.JUMP, tick)
    mon.set_events(tid, mon.events.PY_START | mon.events.JUMP)
    try:
        run_case_raw(mod, case)
        return False, n[0]
    except StepLimit:
        return True, n[0]
    except BaseException:
        return False, n[0]
    finally:
        mon.set_events(tid, 0)
        mon.free_tool_id(tid)


def run_case_raw(mod, case):
    random.seed(case.rng.randrange(2 ** 32))
    import numpy
    numpy.random.seed(case.rng.randrange(2 ** 32))
    mod.KINDS[case.kind][0](case)


def plan(mod, tier):
    """Deterministic interleaved list of (kind, idx)."""
    items = []
    for kind, spec in mod.KINDS.items():
        n = spec[1] if tier == "quick" else spec[2]
        for i in range(n):
            items.append(((i + 0.5) / n, kind, i))
    items.sort(key=lambda x: (x[0], x[1], x[2]))
    return [(k, i) for _, k, i in items]


def limits(mod, tier):
    cap = getattr(mod, "CAP", {"quick": 400, "thorough": 750})[tier]
    wd = getattr(mod, "WATCHDOG", 40)
    steps = getattr(mod, "STEPS", 60_000_000)
    return cap, wd, steps


def worker(mod, prop, tier, seed, w, known, path):
    cap, wd, steps = limits(mod, tier)
    obs = Counter()
    sigs, samples, viols, knownhits = set(), [], [], {}
    items = plan(mod, tier)[w::NPROC]
    t0 = time.time()
    done = []
    killed = False

    def onalarm(*a):
        raise Watchdog()
    signal.signal(signal.SIGVTALRM, onalarm)
    if hasattr(mod, "setup"):
        mod.setup(obs)
    n = 0
    for kind, idx in items:
        if time.time() - t0 > cap:
            obs["time_cap_reached"] += 1
            break
        case = Case(prop, kind, idx, seed, tier, obs)
        vs = []
        signal.setitimer(signal.ITIMER_VIRTUAL, wd)
        try:
            vs = run_case(mod, case)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Watchdog:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            obs["watchdog_fired"] += 1
            c2 = Case(prop, kind, idx, seed, tier, Counter())
            try:
                hung, cnt = step_limited(mod, c2, steps)
            except StepLimit:
                hung, cnt = True, steps
            if hung:
                vs = [("no-termination:" + kind, "still running after %d logical steps (loop back-edges + calls)" % cnt, None)]
            else:
                obs["slow_case"] += 1
        except MemoryError:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            obs["memory_error"] += 1
        n += 1
        obs["evaluations"] += 1
        obs["kind:" + kind] += 1
        sigs.update(case.sigs)
        if case.samples and len(samples) < 4:
            samples.extend("%s#%d: %s" % (kind, idx, s) for s in case.samples[:1])
        for mech, msg, data in vs:
            k = match_known(known, mech, msg)
            if k is not None:
                knownhits[k] = knownhits.get(k, 0) + 1
            else:
                viols.append(dict(property=prop, kind=kind, idx=idx, seed=seed, tier=tier, worker=w, nproc=NPROC,
                                  position=n - 1, mechanism=mech, message=msg, data=data if isinstance(data, str) else repr(data)))
        if len(viols) >= 6:
            obs["stopped_after_violations"] += 1
            break
    with open(path, "wb") as f:
        pickle.dump(dict(obs=obs, sigs=sigs, samples=samples, viols=viols, known=knownhits, n=n), f)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [k for k in d["findings"] if k["property"] == prop]


def match_known(known, mech, msg):
    for i, k in enumerate(known):
        if re.fullmatch(k["mechanism"], mech):
            return i
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--idx", type=int)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.setrecursionlimit(5000)
    import pyzx
    assert os.path.abspath(pyzx.__file__).startswith(os.path.abspath(REPO) + "/"), pyzx.__file__
    mod = importlib.import_module("vt.checks." + a.prop.lower())
    if a.replay or a.kind:
        return replay(mod, a)
    known = load_known(a.prop)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    import tempfile
    tmp = tempfile.mkdtemp(prefix="vt_%s_" % a.prop)
    gc.freeze()
    pids = []
    for w in range(NPROC):
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.chdir(tmp)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                worker(mod, a.prop, a.tier, a.seed, w, known, os.path.join(tmp, "w%d" % w))
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(rc)
        pids.append(pid)
    dead = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            dead += 1
    obs, sigs, samples, viols, kh = Counter(), set(), [], [], {}
    for w in range(NPROC):
        p = os.path.join(tmp, "w%d" % w)
        if not os.path.exists(p):
            continue
        d = pickle.load(open(p, "rb"))
        obs.update(d["obs"])
        sigs |= d["sigs"]
        samples += d["samples"]
        viols += d["viols"]
        for k, v in d["known"].items():
            kh[k] = kh.get(k, 0) + v
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    if hasattr(mod, "finish"):
        for mech, msg in mod.finish(obs, a.tier):
            if match_known(known, mech, msg) is None:
                viols.append(dict(property=a.prop, kind="finish", idx=0, seed=a.seed, tier=a.tier, mechanism=mech, message=msg, data=None))
    wall = time.time() - t0
    missing = [n for n in getattr(mod, "NEED", []) if obs.get(n, 0) == 0]
    cov = dict(evaluations=int(obs.get("evaluations", 0)), distinct_nontrivial=len(sigs), rule=mod.RULE,
               samples=samples[:12] or ["(none)"],
               observed={k: int(v) for k, v in sorted(obs.items()) if k != "evaluations"})
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
              violations=len(viols))
    if viols:
        cov["violation_mechanisms"] = sorted({v["mechanism"] for v in viols})
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for i, k in enumerate(known):
        # every listed finding is reported on every run; "seen" says whether this run's workload hit it
        print("KNOWN-FINDING: property=%s %s [%s; hit %d times in this run]" % (a.prop, k["what"], k["id"], kh.get(i, 0)))
    seen = set()
    nprint = 0
    viols.sort(key=lambda v: (v["kind"], v["idx"]))
    for v in viols:
        if v["mechanism"] in seen:
            continue
        seen.add(v["mechanism"])
        nprint += 1
        if nprint > 8:
            break
        path = os.path.join(EVID, "replay_%s_%d.json" % (a.prop, nprint))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  [%s] %s" % (v["mechanism"], str(v["message"])[:500]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (a.prop, a.tier, a.seed, cov["evaluations"], len(sigs), wall))
    if viols:
        return 1
    if obs.get("HARNESS_ERROR"):
        print("INCONCLUSIVE: %d harness errors" % obs["HARNESS_ERROR"])
        return 3
    if dead:
        print("INCONCLUSIVE: %d workers died" % dead)
        return 3
    if missing or not sigs:
        print("INCONCLUSIVE: monitors never reached: %s" % missing)
        return 3
    return 0


def replay(mod, a):
    """Reproduce a recorded violation: first the single case in a fresh process, then with the history
    of cases that preceded it in its worker."""
    if a.replay:
        v = json.load(open(a.replay))
    else:
        v = dict(kind=a.kind, idx=a.idx or 0, seed=a.seed, tier=a.tier, mechanism=".*", worker=0)
    obs = Counter()
    if hasattr(mod, "setup"):
        mod.setup(obs)
    case = Case(a.prop, v["kind"], v["idx"], v["seed"], v["tier"], obs)
    vs = run_case(mod, case)
    for mech, msg, data in vs:
        print("reproduced alone: [%s] %s\n%s" % (mech, msg, data or ""))
    if not vs and "position" in v:
        print("not reproduced alone; replaying the history of its worker")
        items = plan(mod, v["tier"])[v["worker"]::v["nproc"]][:v["position"] + 1]
        for kind, idx in items:
            vs = run_case(mod, Case(a.prop, kind, idx, v["seed"], v["tier"], obs))
        for mech, msg, data in vs:
            print("reproduced with history: [%s] %s\n%s" % (mech, msg, data or ""))
    print(dict(obs))
    for s in case.samples:
        print("sample", s)
    if vs:
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay or "(inline)"))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
