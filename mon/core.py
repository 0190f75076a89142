"""Shared machinery of the monitors: cases, verdicts, replays, evidence.

A *check* (one per property, in /verif/checks) is a list of scenarios.  A
scenario is a function ``fn(ctx, rng)`` which runs the real library under one
generated workload ("case"), while monitors judge what is observed through
``ctx.ok`` and friends.  Everything random comes from ``rng``, which is seeded
from (VERIF_SEED, property, scenario, case number), so a case can be replayed.

Verdicts are three-valued:
  * violated      -> exit 1 and a VIOLATION line with a replay file
  * held          -> exit 0
  * inconclusive  -> exit 2 (the monitors were not reached often enough)
"""
import collections
import hashlib
import json
import os
import random
import re
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NORMALIZE_REPO", "/repo")

CASE_CPU_LIMIT = 10.0       # seconds of CPU (not wall clock); a case needs ms
MEMORY_LIMIT = 3 << 30


class Violation(Exception):
    def __init__(self, msg, **info):
        super(Violation, self).__init__(msg)
        self.msg = msg
        self.info = info


class Abandon(Exception):
    """The case can't be judged further (a different property's monitor would
    have to decide it); not a violation of this property."""
    def __init__(self, why):
        super(Abandon, self).__init__(why)
        self.why = why


class Runaway(BaseException):
    pass


class Got(object):
    """Outcome of a call: either a value or an exception."""
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        if self.exc is not None:
            return "raised %s: %s" % (
                type(self.exc).__name__, short(safe_str(self.exc), 200))
        return "returned %s" % short(safe_repr(self.value), 200)


def safe_repr(x):
    try:
        return repr(x)
    except Exception as e:
        return "<unreprable %s: %s>" % (type(x).__name__, type(e).__name__)


def safe_str(x):
    try:
        return str(x)
    except Exception as e:
        return "<unprintable %s: %s>" % (type(x).__name__, type(e).__name__)


def short(s, n=300):
    return s if len(s) <= n else s[:n - 3] + "..."


def attempt(fn, *a, **kw):
    """Runs the library, capturing the outcome."""
    try:
        return Got(value=fn(*a, **kw))
    except (Violation, Abandon, MemoryError):
        raise
    except Exception as e:
        return Got(exc=e)


class Ctx(object):
    def __init__(self, pid, tier, seed, known):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.known = known
        self.events = collections.Counter()
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.abandoned = collections.Counter()
        self.known_hits = {}
        self.trace = []
        self.case_sig = None
        self.case_trivial = True

    # -- recording
    def ev(self, name, n=1):
        self.events[name] += n

    def log(self, *what):
        if len(self.trace) < 400:
            self.trace.append(" ".join(
                x if isinstance(x, str) else short(safe_repr(x)) for x in what))

    def sig(self, *what):
        """Mark the case non-trivial, with this signature for distinctness."""
        s = "|".join(x if isinstance(x, str) else safe_repr(x) for x in what)
        self.nontrivial.add(hashlib.md5(
            s.encode("utf-8", "backslashreplace")).digest()[:8])

    # -- judging
    def ok(self, cond, msg, *args):
        self.evals += 1
        if not cond:
            try:
                text = msg % args if args else msg
            except Exception:
                text = "%s %s" % (msg, safe_repr(args))
            raise Violation(short(text, 2000))

    def same(self, got, want, what):
        self.evals += 1
        if not (type(got) is type(want) and got == want):
            raise Violation("%s: got %s, expected %s" % (
                what, short(safe_repr(got), 600), short(safe_repr(want), 600)))

    def equal(self, got, want, what):
        self.evals += 1
        if not (got == want):
            raise Violation("%s: got %s, expected %s" % (
                what, short(safe_repr(got), 600), short(safe_repr(want), 600)))

    def raised(self, got, types, what):
        """Judge that the attempt raised one of the types"""
        self.evals += 1
        if got.exc is None:
            raise Violation("%s: expected %s, but it %r" % (
                what, tname(types), got))
        if not isinstance(got.exc, types):
            raise Violation("%s: expected %s, but it %r" % (
                what, tname(types), got))

    def value(self, got, what):
        self.evals += 1
        if got.exc is not None:
            raise Violation("%s: %r (%s)" % (what, got, where(got.exc)))
        return got.value

    def finding(self, key, cond, msg):
        """Judge something which may be a recorded known finding."""
        self.evals += 1
        if not cond:
            if key in self.known:
                self.known_hits[key] = self.known[key]
            else:
                raise Violation(msg)


def tname(types):
    if isinstance(types, tuple):
        return "/".join(t.__name__ for t in types)
    return types.__name__


def where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                     for f in tb[-3:])


def load_known(pid):
    """Known findings: lines 'open: property=<id> key=<key> <what fails>'"""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def case_rng(seed, pid, scenario, i):
    return random.Random("%s:%s:%s:%d" % (seed, pid, scenario, i))


def _on_cpu(signum, frame):
    raise Runaway()


def run_case(ctx, scenario, fn, i):
    """Returns None or a dict describing the violation"""
    ctx.trace = []
    rng = case_rng(ctx.seed, ctx.pid, scenario, i)
    # repeatedly, in case that the code under test swallows the exception
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT, 3.0)
    msg = None
    tb = None
    try:
        fn(ctx, rng)
    except Abandon as e:
        ctx.abandoned[short(e.why, 80)] += 1
    except Violation as e:
        msg = e.msg
        tb = traceback.format_exc()
    except Runaway:
        msg = ("the operation did not terminate within %d seconds of CPU "
               "time (cases take milliseconds)" % CASE_CPU_LIMIT)
        tb = traceback.format_exc()
    except MemoryError:
        msg = "the operation exhausted %d MB of memory" % (MEMORY_LIMIT >> 20)
    except Exception as e:
        msg = "unexpected %s: %s (%s)" % (
            type(e).__name__, short(safe_str(e)), where(e))
        tb = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if len(ctx.samples) < 6 and ctx.trace and msg is None:
        ctx.samples.append({"scenario": scenario, "case": i,
                            "trace": ctx.trace[:25]})
    if msg is not None:
        return {"property": ctx.pid, "seed": ctx.seed, "tier": ctx.tier,
                "scenario": scenario, "case": i, "message": msg,
                "trace": ctx.trace, "traceback": tb}
    return None


def setup_process():
    signal.signal(signal.SIGPROF, _on_cpu)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(2000)


def import_library():
    """Import normalize, from /repo's working tree and nowhere else"""
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") !=
                   os.path.realpath(os.path.join(VERIF, "mon"))]
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import warnings
    warnings.simplefilter("ignore")
    import normalize
    got = os.path.realpath(os.path.dirname(normalize.__file__))
    want = os.path.realpath(os.path.join(REPO, "normalize"))
    if got != want:
        print("wrong library imported: %s" % got)
        sys.exit(3)
    return normalize


def worker(mod, ctx, w, nworkers, deadline, out_fd):
    """Runs this worker's share of the cases; writes a JSON result"""
    setup_process()
    violation = None
    cases = collections.Counter()
    cut = False
    for name, fn, quick_n, thorough_n in mod.SCENARIOS:
        n = quick_n if ctx.tier == "quick" else thorough_n
        # fair share of the remaining time is not needed: caps are generous
        for i in range(w, n, nworkers):
            if time.time() > deadline:
                cut = True
                break
            violation = run_case(ctx, name, fn, i)
            cases[name] += 1
            if violation:
                violation["worker"] = [w, nworkers]
                break
        if violation or cut:
            break
    res = dict(
        violation=violation, cases=dict(cases), cut=cut,
        events=dict(ctx.events), evals=ctx.evals,
        nontrivial=[x.hex() for x in ctx.nontrivial],
        samples=ctx.samples, abandoned=dict(ctx.abandoned),
        known_hits=ctx.known_hits,
    )
    data = json.dumps(res, default=safe_repr).encode()
    with os.fdopen(out_fd, "wb") as f:
        f.write(data)


def gather(procs, deadline):
    """Results of the workers.  A worker which is stuck (within native code,
    or because the code under test swallows the exception which ends a case)
    is ended: some time after a violation was reported, or the deadline"""
    results = []
    broken = False
    waiting = dict((f.fileno(), (pidnum, f, [])) for pidnum, f in procs)
    limit = deadline + 60
    while waiting:
        ready = select.select(list(waiting), [], [], 1.0)[0]
        for fd in ready:
            pidnum, f, chunks = waiting[fd]
            data = os.read(fd, 1 << 20)
            if data:
                chunks.append(data)
                continue
            del waiting[fd]
            f.close()
            os.waitpid(pidnum, 0)
            try:
                results.append(json.loads(b"".join(chunks)))
            except ValueError:
                broken = True
            else:
                if results[-1]["violation"]:
                    limit = min(limit, time.time() + 30)
        if time.time() > limit:
            for pidnum, f, chunks in waiting.values():
                os.kill(pidnum, signal.SIGKILL)
            limit = float("inf")
    return results, broken


def run_check(pid, tier, seed):
    t0 = time.time()
    import importlib
    import_library()
    mod = importlib.import_module("checks." + pid.lower())
    known = load_known(pid)
    nworkers = int(os.environ.get("VERIF_WORKERS", 0)) or getattr(
        mod, "WORKERS", 4 if tier == "quick" else 8)
    cap = getattr(mod, "CAP", {}).get(tier, 150 if tier == "quick" else 720)
    deadline = t0 + cap
    sys.stdout.flush()
    procs = []
    for w in range(nworkers):
        r, wfd = os.pipe()
        pidnum = os.fork()
        if pidnum == 0:
            code = 1
            try:
                os.close(r)
                for (_, other_r) in procs:
                    other_r.close()
                worker(mod, Ctx(pid, tier, seed, known), w, nworkers,
                       deadline, wfd)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((pidnum, os.fdopen(r, "rb")))
    results, broken = gather(procs, deadline)
    events = collections.Counter()
    cases = collections.Counter()
    abandoned = collections.Counter()
    nontrivial = set()
    samples = []
    known_hits = {}
    evals = 0
    cut = False
    violation = None
    for r in results:
        events.update(r["events"])
        cases.update(r["cases"])
        abandoned.update(r["abandoned"])
        nontrivial.update(r["nontrivial"])
        known_hits.update(r["known_hits"])
        evals += r["evals"]
        cut = cut or r["cut"]
        if r["violation"] and violation is None:
            violation = r["violation"]
        samples.extend(r["samples"][:2])
    need = getattr(mod, "NEED", {})
    missing = [
        "%s %d/%d" % (k, events[k], v) for k, v in sorted(need.items())
        if events[k] < v
    ]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(cases.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:8],
            "monitor_evaluations": evals,
            "cases_by_scenario": dict(cases),
            "observed_events": dict(sorted(events.items())),
            "abandoned_cases": dict(abandoned),
            "exhaustive": False,
            "cut_short_by_time": cut,
            "known_findings_seen": sorted(known_hits),
            "unmet_minimums": missing,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=safe_repr)
        f.write("\n")
    for key in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (pid, known_hits[key]))
    print("%s %s seed=%d: %d cases, %d monitor evaluations, %d distinct "
          "non-trivial, %.1fs" % (
              pid, tier, seed, sum(cases.values()), evals, len(nontrivial),
              time.time() - t0))
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (
            pid, violation["scenario"], violation["case"]))
        with open(path, "w") as f:
            json.dump(violation, f, indent=1, default=safe_repr)
            f.write("\n")
        print("  %s case %d: %s" % (
            violation["scenario"], violation["case"], violation["message"]))
        for line in violation["trace"][-12:]:
            print("    | " + line)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if broken:
        print("INCONCLUSIVE property=%s a worker died" % pid)
        return 2
    if missing:
        print("INCONCLUSIVE property=%s monitors not reached: %s" % (
            pid, ", ".join(missing)))
        return 2
    return 0


def replay(path):
    import importlib
    info = json.load(open(path))
    import_library()
    mod = importlib.import_module("checks." + info["property"].lower())
    setup_process()
    fns = {s[0]: (s[1], s) for s in mod.SCENARIOS}

    def ctx():
        return Ctx(info["property"], info["tier"], info["seed"],
                   load_known(info["property"]))
    fn = fns[info["scenario"]][0]
    v = run_case(ctx(), info["scenario"], fn, info["case"])
    if v is None and "worker" in info:
        # may depend on the process' history: replay the worker's whole share
        w, nw = info["worker"]
        c = ctx()
        for name, f, q, t in mod.SCENARIOS:
            n = q if info["tier"] == "quick" else t
            for i in range(w, n, nw):
                v = run_case(c, name, f, i)
                if v or (name == info["scenario"] and i >= info["case"]):
                    break
            if v or name == info["scenario"]:
                break
    if v:
        print(v["message"])
        print("\n".join("    | " + x for x in v["trace"]))
        print(v["traceback"] or "")
        print("VIOLATION property=%s replay=%s" % (info["property"], path))
        return 1
    print("did not reproduce")
    return 0
